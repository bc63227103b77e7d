package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pow2i(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

// wrapTo reduces t into the range of ty (two's complement).
func (x *Exec) wrapTo(s *State, t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if t.isInt() {
		v := new(big.Int).Set(t.ival)
		w := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
		v.Sub(v, lo)
		v.Mod(v, w)
		v.Add(v, lo)
		return BigI(v)
	}
	if x.known(s, t, lo, hi) {
		return t
	}
	w := BigI(new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne))
	if lo.Sign() == 0 {
		return Mod(modStrip(t, w.ival), w)
	}
	h := BigI(new(big.Int).Add(hi, bigOne))
	return Sub(Mod(Add(t, h), w), h)
}

// modStrip removes inner mod by a multiple of w.
func modStrip(t *Term, w *big.Int) *Term {
	if t.op == "mod" && t.args[1].isInt() {
		if new(big.Int).Mod(t.args[1].ival, w).Sign() == 0 {
			return modStrip(t.args[0], w)
		}
	}
	return t
}

// known reports whether lo<=t<=hi follows cheaply.
func (x *Exec) known(s *State, t *Term, lo, hi *big.Int) bool {
	a, b := x.bounds(s, t, 0)
	return a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0
}

func (x *Exec) bounds(s *State, t *Term, d int) (lo, hi *big.Int) {
	if t.isInt() {
		return t.ival, t.ival
	}
	if d > 6 {
		return nil, nil
	}
	switch t.op {
	case "mod":
		if t.args[1].isInt() && t.args[1].ival.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].ival, bigOne)
		}
	case "seq.len":
		return big.NewInt(0), maxLen
	case "div":
		if t.args[1].isInt() && t.args[1].ival.Sign() > 0 {
			a, b := x.bounds(s, t.args[0], d+1)
			if a != nil && b != nil {
				q1, q2 := new(big.Int), new(big.Int)
				m := new(big.Int)
				q1.DivMod(a, t.args[1].ival, m)
				q2.DivMod(b, t.args[1].ival, m)
				return q1, q2
			}
		}
	case "ite":
		a1, b1 := x.bounds(s, t.args[1], d+1)
		a2, b2 := x.bounds(s, t.args[2], d+1)
		if a1 != nil && a2 != nil {
			lo = a1
			if a2.Cmp(lo) < 0 {
				lo = a2
			}
		}
		if b1 != nil && b2 != nil {
			hi = b1
			if b2.Cmp(hi) > 0 {
				hi = b2
			}
		}
		return
	case "+", "*":
		if t.op == "*" && !t.args[0].isInt() {
			break
		}
		l := linOf(t)
		lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
		for v, k := range l.ts {
			a, b := x.bounds(s, v, d+1)
			if k.Sign() < 0 {
				a, b = b, a
			}
			if a == nil {
				lo = nil
			} else if lo != nil {
				lo.Add(lo, new(big.Int).Mul(a, k))
			}
			if b == nil {
				hi = nil
			} else if hi != nil {
				hi.Add(hi, new(big.Int).Mul(b, k))
			}
		}
		return
	}
	// facts in the path condition
	for i := len(s.pc) - 1; i >= 0; i-- {
		f := s.pc[i]
		if f.op == "<=" && len(f.args) == 2 {
			if f.args[1] == t && f.args[0].isInt() {
				if lo == nil || f.args[0].ival.Cmp(lo) > 0 {
					lo = f.args[0].ival
				}
			}
			if f.args[0] == t && f.args[1].isInt() {
				if hi == nil || f.args[1].ival.Cmp(hi) < 0 {
					hi = f.args[1].ival
				}
			}
		} else if f.op == "<" && len(f.args) == 2 {
			if f.args[1] == t && f.args[0].isInt() {
				v := new(big.Int).Add(f.args[0].ival, bigOne)
				if lo == nil || v.Cmp(lo) > 0 {
					lo = v
				}
			}
			if f.args[0] == t && f.args[1].isInt() {
				v := new(big.Int).Sub(f.args[1].ival, bigOne)
				if hi == nil || v.Cmp(hi) < 0 {
					hi = v
				}
			}
		}
	}
	return
}

func (x *Exec) exact(ty types.Type) bool {
	if x.c.Arith == "exact" {
		return true
	}
	if b, ok := ty.Underlying().(*types.Basic); ok && intBits(b) < 64 {
		return true
	}
	return false
}

func (x *Exec) wrapArith(s *State, t *Term, ty types.Type) *Term {
	if x.exact(ty) {
		return x.wrapTo(s, t, ty)
	}
	lo, hi, _ := intRange(ty)
	if lo != nil && !x.known(s, t, lo, hi) {
		eng.note("64-bit integer arithmetic in " + fnKey(x.curFn()) + " is treated as mathematical (no overflow)")
	}
	return t
}

func (x *Exec) curFn() *ssa.Function {
	if x.fromSt != nil && len(x.fromSt.frames) > 0 {
		return x.fromSt.top().fn
	}
	return x.fn
}

func (x *Exec) binop(s *State, op token.Token, X, Y ssa.Value, rt types.Type) Val {
	switch op {
	case token.EQL:
		return x.equal(s, X, Y)
	case token.NEQ:
		return Not(x.equal(s, X, Y))
	}
	ty := X.Type()
	a, b := x.term(s, X), x.term(s, Y)
	so := a.sort
	if so == "(Seq Int)" {
		switch op {
		case token.ADD:
			return SeqCat(a, b)
		case token.LSS:
			return mk("str.less", "Bool", a, b)
		case token.GTR:
			return mk("str.less", "Bool", b, a)
		case token.LEQ:
			return Not(mk("str.less", "Bool", b, a))
		case token.GEQ:
			return Not(mk("str.less", "Bool", a, b))
		}
	}
	if so == "Real" {
		switch op {
		case token.LSS:
			return mk("<", "Bool", a, b)
		case token.GTR:
			return mk("<", "Bool", b, a)
		case token.LEQ:
			return mk("<=", "Bool", a, b)
		case token.GEQ:
			return mk("<=", "Bool", b, a)
		case token.ADD:
			return mk("+", "Real", a, b)
		case token.SUB:
			return mk("-", "Real", a, b)
		case token.MUL:
			return mk("*", "Real", a, b)
		case token.QUO:
			return mk("/", "Real", a, b)
		}
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	case token.ADD:
		return x.wrapArith(s, Add(a, b), ty)
	case token.SUB:
		return x.wrapArith(s, Sub(a, b), ty)
	case token.MUL:
		return x.wrapArith(s, Mul(a, b), ty)
	case token.QUO:
		x.require(s, "safe", "div-zero", Not(Eq(b, Int(0))))
		return x.quo(s, a, b)
	case token.REM:
		x.require(s, "safe", "div-zero", Not(Eq(b, Int(0))))
		return Sub(a, Mul(b, x.quo(s, a, b))).remFix(x, s, a, b)
	case token.SHL:
		x.require(s, "safe", "shift-neg", Le(Int(0), b))
		var r *Term
		if b.isInt() {
			if b.ival.Cmp(big.NewInt(4096)) > 0 {
				return Int(0)
			}
			r = Mul(a, BigI(pow2i(int(b.ival.Int64()))))
		} else {
			r = Mul(a, pow2t(b))
		}
		return x.wrapArith(s, r, ty)
	case token.SHR:
		x.require(s, "safe", "shift-neg", Le(Int(0), b))
		if b.isInt() {
			if b.ival.Cmp(big.NewInt(4096)) > 0 {
				return Int(0)
			}
			return shr(a, int(b.ival.Int64()))
		}
		return Div(a, pow2t(b))
	case token.AND:
		return x.bitAnd(s, a, b, ty)
	case token.OR:
		return Sub(Add(a, b), x.bitAnd(s, a, b, ty))
	case token.XOR:
		return Sub(Add(a, b), Mul(Int(2), x.bitAnd(s, a, b, ty)))
	case token.AND_NOT:
		return Sub(a, x.bitAnd(s, a, b, ty))
	}
	panic(unsupported("binop " + op.String()))
}

func shr(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if a.op == "div" && a.args[1].isInt() {
		return Div(a.args[0], BigI(new(big.Int).Mul(a.args[1].ival, pow2i(k))))
	}
	return Div(a, BigI(pow2i(k)))
}

func pow2t(b *Term) *Term {
	if b.isInt() {
		return BigI(pow2i(int(b.ival.Int64())))
	}
	return mk("pow2", "Int", b)
}

func (x *Exec) quo(s *State, a, b *Term) *Term {
	lo, _ := x.bounds(s, a, 0)
	blo, _ := x.bounds(s, b, 0)
	if lo != nil && lo.Sign() >= 0 && blo != nil && blo.Sign() >= 0 {
		return Div(a, b)
	}
	if b.isInt() && b.ival.Sign() > 0 {
		return Ite(Le(Int(0), a), Div(a, b), Neg(Div(Neg(a), b)))
	}
	ab := Ite(Le(Int(0), b), b, Neg(b))
	aa := Ite(Le(Int(0), a), a, Neg(a))
	q := Div(aa, ab)
	return Ite(Eq(Le(Int(0), a), Le(Int(0), b)), q, Neg(q))
}

// remFix: prefer mod when everything is non-negative.
func (t *Term) remFix(x *Exec, s *State, a, b *Term) *Term {
	lo, _ := x.bounds(s, a, 0)
	blo, _ := x.bounds(s, b, 0)
	if lo != nil && lo.Sign() >= 0 && blo != nil && blo.Sign() >= 0 {
		return Mod(a, b)
	}
	return t
}

func (x *Exec) bitAnd(s *State, a, b *Term, ty types.Type) *Term {
	if a.isInt() && b.isInt() {
		// two's complement and on big ints
		return BigI(new(big.Int).And(a.ival, b.ival))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		m := b.ival
		if m.Sign() < 0 {
			// ...111xxx: convert to width
			_, hi, _ := intRange(ty)
			w := new(big.Int).Add(new(big.Int).Mul(hi, big.NewInt(2)), bigOne)
			if isUnsigned(ty) {
				w = hi
			}
			// a & m = a - (a & ^m)
			nm := new(big.Int).AndNot(w, m)
			return Sub(a, x.bitAnd(s, a, BigI(nm), ty))
		}
		// sum of runs of ones
		var parts []*Term
		i := 0
		for i < m.BitLen() {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			part := shr(a, i)
			if !x.known(s, a, big.NewInt(0), new(big.Int).Sub(pow2i(j), bigOne)) {
				part = Mod(part, BigI(pow2i(j-i)))
			}
			parts = append(parts, Mul(part, BigI(pow2i(i))))
			i = j
		}
		if len(parts) == 0 {
			return Int(0)
		}
		return Add(parts...)
	}
	// disjointness: one operand a multiple of 2^k, the other in [0,2^k)
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		k := trailingZeros(p[0])
		if k > 0 {
			if x.known(s, p[1], big.NewInt(0), new(big.Int).Sub(pow2i(k), bigOne)) {
				return Int(0)
			}
		}
	}
	r := mk("bit.and", "Int", a, b)
	if isUnsigned(ty) {
		s.assume(And(Le(Int(0), r), Le(r, a), Le(r, b)))
	}
	return r
}

func trailingZeros(t *Term) int {
	l := linOf(t)
	min := -1
	upd := func(v *big.Int) {
		if v.Sign() == 0 {
			return
		}
		z := int(v.TrailingZeroBits())
		if min < 0 || z < min {
			min = z
		}
	}
	upd(l.c)
	for v, k := range l.ts {
		z := int(k.TrailingZeroBits())
		if v.op == "mod" && v.args[1].isInt() {
			// (2^a*y mod 2^b)
			if tz := trailingZeros(v.args[0]); tz > 0 {
				mz := int(v.args[1].ival.TrailingZeroBits())
				if mz < tz {
					tz = mz
				}
				z += tz
			}
		}
		if min < 0 || z < min {
			min = z
		}
	}
	if min < 0 {
		return 0
	}
	return min
}

func (x *Exec) equal(s *State, X, Y ssa.Value) *Term {
	a, b := x.val(s, X), x.val(s, Y)
	return x.equalV(s, X.Type(), a, b, Y.Type())
}

func isNilVal(v Val) bool {
	switch v := v.(type) {
	case *PtrV:
		return v.Obj == 0
	case *SliceV:
		return v.Obj == 0 && v.NilC == True && isEmptySeq(v.Data)
	case *IfaceV:
		return v.T == nil
	case *MapV:
		return v.Obj == 0
	case *SymFn:
		return v.t.op == "fn.nil"
	case *Term:
		return v.op == "ext.nil"
	}
	return false
}

func (x *Exec) nilTerm(s *State, v Val) *Term {
	switch v := v.(type) {
	case *PtrV:
		return Bool(v.Obj == 0)
	case *RoPtr:
		return False
	case *SymPtr:
		if id, ok := s.mat[v.t]; ok {
			return Bool(id == 0)
		}
		return ptrIsNil(v.t)
	case *SliceV:
		return s.sliceNil(v)
	case *IfaceV:
		return Bool(v.T == nil)
	case *SymIfc:
		return Eq(v.t, ifcNil)
	case *MapV:
		if v.Obj == 0 {
			return True
		}
		return mapNil(s.obj(v.Obj).V.(*Term))
	case *SymMap:
		if id, ok := s.mat[v.t]; ok {
			return Bool(id == 0)
		}
		return mapNil(v.t)
	case *FuncV:
		return False
	case *SymFn:
		return Eq(v.t, Const("fn.nil", "Fn"))
	case *Term:
		return isNilTerm(v)
	}
	panic(fmt.Sprintf("nilTerm %T", v))
}

func (x *Exec) equalV(s *State, t types.Type, a, b Val, t2 types.Type) *Term {
	if isNilVal(b) && !isTermKind(t) {
		return x.nilTerm(s, a)
	}
	if isNilVal(a) && !isTermKind(t2) {
		return x.nilTerm(s, b)
	}
	_, aI := t.Underlying().(*types.Interface)
	_, bI := t2.Underlying().(*types.Interface)
	if aI && !bI {
		b = &IfaceV{T: t2, V: b}
	} else if bI && !aI {
		a = &IfaceV{T: t, V: a}
		t = t2
	}
	switch p := a.(type) {
	case *PtrV:
		switch q := b.(type) {
		case *PtrV:
			if p.Obj != q.Obj {
				return False
			}
			if len(p.Path) == len(q.Path) {
				var cs []*Term
				for i := range p.Path {
					if p.Path[i].idx != nil {
						cs = append(cs, Eq(p.Path[i].idx, q.Path[i].idx))
					} else if p.Path[i].f != q.Path[i].f {
						return False
					}
				}
				return And(cs...)
			}
		}
		return Fresh("ptreq", "Bool")
	case *SymPtr:
		if q, ok := b.(*SymPtr); ok && q.t == p.t {
			return True
		}
		r := Fresh("ptreq", "Bool")
		if q, ok := b.(*SymPtr); ok {
			s.assume(Implies(r, Eq(p.t, q.t)))
		}
		return r
	case *RoPtr:
		return Fresh("ptreq", "Bool")
	case *IfaceV:
		if q, ok := b.(*IfaceV); ok && p.T != nil && q.T != nil {
			if !types.Identical(p.T, q.T) {
				return False
			}
			return x.equalV(s, p.T, p.V, q.V, p.T)
		}
	}
	return Eq(s.fold(t, a), s.fold(t, b))
}

func isTermKind(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil {
		return true
	}
	return false
}

func (x *Exec) convert(s *State, X ssa.Value, t types.Type) Val {
	ft := X.Type()
	v := x.val(s, X)
	fb, fIsB := ft.Underlying().(*types.Basic)
	tb, tIsB := t.Underlying().(*types.Basic)
	switch {
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		tm := v.(*Term)
		flo, fhi, _ := intRange(ft)
		tlo, thi, _ := intRange(t)
		if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return tm
		}
		return x.wrapTo(s, tm, t)
	case fIsB && tIsB && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fIsB && fb.Info()&types.IsString != 0:
		// string -> []byte / []rune
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				d := v.(*Term)
				id := s.alloc(types.NewSlice(sl.Elem()), d, "bytes")
				return &SliceV{ET: sl.Elem(), Obj: id, Off: Int(0), Len: SeqLen(d), Cap: SeqLen(d)}
			}
			return s.havoc(t, "runes")
		}
	case tIsB && tb.Info()&types.IsString != 0:
		if sv, ok := v.(*SliceV); ok {
			if sortOf(sv.ET) == "Int" && intBits(sv.ET.Underlying().(*types.Basic)) == 8 {
				return s.sliceData(sv)
			}
			return s.havoc(t, "str")
		}
		if tm, ok := v.(*Term); ok && tm.sort == "Int" {
			if x.known(s, tm, big.NewInt(0), big.NewInt(127)) {
				return SeqUnit(tm)
			}
			return s.havoc(t, "runestr")
		}
	case fIsB && tIsB && tb.Info()&types.IsFloat != 0:
		tm := v.(*Term)
		if tm.sort == "Int" {
			eng.note("float64 arithmetic treated as real arithmetic")
			return mk("to_real", "Real", tm)
		}
		return tm
	case fIsB && tIsB && fb.Info()&types.IsFloat != 0:
		tm := v.(*Term)
		if tm.sort == "Real" && tb.Info()&types.IsInteger != 0 {
			eng.note("float64 arithmetic treated as real arithmetic")
			return mk("to_int", "Int", tm)
		}
		return tm
	}
	if sortOf(ft) == sortOf(t) {
		return x.retype(s, v, t)
	}
	return s.havoc(t, "conv")
}

// ---------- slices ----------

func (x *Exec) sliceOp(s *State, i *ssa.Slice, set func(Val)) {
	v := x.val(s, i.X)
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = x.term(s, i.Low)
	} else {
		lo = Int(0)
	}
	if i.High != nil {
		hi = x.term(s, i.High)
	}
	if i.Max != nil {
		mx = x.term(s, i.Max)
	}
	switch a := v.(type) {
	case *Term: // string
		if hi == nil {
			hi = SeqLen(a)
		}
		x.require(s, "safe", "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, SeqLen(a))))
		if s.dead {
			return
		}
		r := SeqSub(a, lo, hi)
		s.assumeBytes(r)
		set(r)
	case *SliceV:
		if a.Obj == 0 && a.NilC == True {
			if hi == nil {
				hi = Int(0)
			}
			x.require(s, "safe", "slice-bounds", And(Eq(lo, Int(0)), Eq(hi, Int(0))))
			set(a)
			return
		}
		if a.Obj == 0 && hi == nil && lo.isInt() && lo.ival.Sign() == 0 && mx == nil {
			set(a)
			return
		}
		ln := s.sliceLen(a)
		if hi == nil {
			hi = ln
		}
		if a.Obj == 0 {
			// nil stays nil
			nilc := a.NilC
			x.require(s, "safe", "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Or(Le(hi, ln), Le(hi, capTerm(a.Data)))))
			if s.dead {
				return
			}
			x.require(s, "safe", "slice-within-length", Le(hi, ln))
			if s.dead {
				return
			}
			if nilc != False && !x.provable(s, Not(nilc)) {
				// keep value form
				d := SeqSub(s.sliceData(a), lo, hi)
				s.assumeBytes(d)
				set(&SliceV{ET: a.ET, Data: d, NilC: nilc})
				return
			}
			o := x.objSlice(s, a)
			set(&SliceV{ET: a.ET, Obj: o.Obj, Off: Add(o.Off, lo), Len: Sub(hi, lo), Cap: Sub(o.Cap, lo)})
			return
		}
		cp := a.Cap
		x.require(s, "safe", "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Or(Le(hi, ln), Le(hi, cp))))
		if s.dead {
			return
		}
		if mx != nil {
			cp = mx
		}
		bl := s.backLen(a.Obj)
		if !x.provable(s, Le(Add(a.Off, hi), bl)) {
			panic(unsupported("re-slicing beyond the backing array"))
		}
		set(&SliceV{ET: a.ET, Obj: a.Obj, Off: Add(a.Off, lo), Len: Sub(hi, lo), Cap: Sub(cp, lo)})
	case *PtrV, *SymPtr:
		p := x.deref(s, a, "slice")
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		x.require(s, "safe", "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
		if s.dead {
			return
		}
		if len(p.Path) > 0 {
			// view into a field: copy (writes through it are not supported)
			av := x.load(s, p).(*ArrayV)
			id := s.alloc(types.NewSlice(at.Elem()), av, "arrayview")
			no := *s.store[id]
			no.Frozen = true
			s.store[id] = &no
			set(&SliceV{ET: at.Elem(), Obj: id, Off: lo, Len: Sub(hi, lo), Cap: Sub(n, lo), View: p})
			return
		}
		set(&SliceV{ET: at.Elem(), Obj: p.Obj, Off: lo, Len: Sub(hi, lo), Cap: Sub(n, lo)})
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", v)))
	}
}

func capTerm(d *Term) *Term { return mk("cap.of<"+d.sort+">", "Int", d) }

func (s *State) backLen(id int) *Term {
	switch b := s.obj(id).V.(type) {
	case *Term:
		return SeqLen(b)
	case *ArrayV:
		return Int(int64(len(b.E)))
	}
	panic("backLen")
}

func (s *State) assumeBytes(t *Term) {
	if t.sort == "(Seq Int)" && t.op != "seq.++" && !isEmptySeq(t) {
		// isbytes(extract(s)) follows from isbytes(s) by axiom
	}
}

func (x *Exec) provable(s *State, g *Term) bool {
	if g == True || s.pcset[g] {
		return true
	}
	return !feasible(s.pc, Not(g))
}

// ---------- maps ----------

func (x *Exec) mapObj(s *State, v Val, t types.Type) int {
	switch m := v.(type) {
	case *MapV:
		if m.Obj == 0 {
			x.require(s, "safe", "nil-map", False)
			panic(dropPath{})
		}
		return m.Obj
	case *SymMap:
		if id, ok := s.mat[m.t]; ok && id != 0 {
			return id
		}
		x.require(s, "safe", "nil-map", Not(mapNil(m.t)))
		id := s.alloc(t, m.t, "map")
		s.store[id].from = m.t
		s.store[id].pre = true
		s.mat[m.t] = id
		return id
	}
	panic(fmt.Sprintf("mapObj %T", v))
}

func (x *Exec) mapTerm(s *State, v Val) *Term {
	switch m := v.(type) {
	case *MapV:
		if m.Obj == 0 {
			so := mapSort(mapKV(m.T))
			ks, vs := mapKV(m.T)
			return mapMk(so, True, ConstArray(ks, optNone(vs)))
		}
		return s.obj(m.Obj).V.(*Term)
	case *SymMap:
		if id, ok := s.mat[m.t]; ok && id != 0 {
			return s.obj(id).V.(*Term)
		}
		s.assume(Implies(mapNil(m.t), Eq(mapData(m.t), ConstArray(sortOf(m.T.Key()), optNone(sortOf(m.T.Elem()))))))
		return m.t
	}
	panic(fmt.Sprintf("mapTerm %T", v))
}

func (x *Exec) lookup(s *State, i *ssa.Lookup, set func(Val)) {
	if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
		m := x.mapTerm(s, x.val(s, i.X))
		k := s.fold(mt.Key(), x.val(s, i.Index))
		o := Select(mapData(m), k)
		z := s.fold(mt.Elem(), zeroVal(mt.Elem()))
		some := optIsSome(o)
		vt := Ite(some, optThe(o), z)
		v := s.unfold(mt.Elem(), vt)
		if i.CommaOk {
			set(TupleV{v, some})
		} else {
			set(v)
		}
		return
	}
	// string index
	a := x.term(s, i.X)
	idx := x.term(s, i.Index)
	x.require(s, "safe", "index", And(Le(Int(0), idx), Lt(idx, SeqLen(a))))
	if s.dead {
		return
	}
	set(s.unfold(types.Typ[types.Uint8], SeqNth(a, idx)))
}

func (x *Exec) rangeStart(s *State, i *ssa.Range, set func(Val)) {
	if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
		m := x.mapTerm(s, x.val(s, i.X))
		// iteration order: an arbitrary duplicate-free enumeration of the keys
		ks := sortOf(mt.Key())
		keys := mk("map.keys<"+m.sort+">", SeqSort(ks), m, Fresh("iter", "Int"))
		id := s.alloc(types.Typ[types.Int], Int(0), "iter")
		s.iters = copyIters(s.iters)
		s.iters[id] = &iterInfo{m: m, keys: keys, mt: mt}
		set(&IterV{Obj: id})
		return
	}
	panic(unsupported("range over string"))
}

func (x *Exec) rangeNext(s *State, i *ssa.Next, set func(Val)) {
	it := x.val(s, i.Iter).(*IterV)
	inf := s.iters[it.Obj]
	n := s.obj(it.Obj).V.(*Term)
	ok := Lt(n, SeqLen(inf.keys))
	k := SeqNth(inf.keys, n)
	o := Select(mapData(inf.m), k)
	s.assume(Implies(ok, optIsSome(o)))
	x.recordWrite(s, it.Obj, nil)
	s.setObj(it.Obj, Add(n, Int(1)))
	set(TupleV{ok, s.unfold(inf.mt.Key(), k), s.unfold(inf.mt.Elem(), optThe(o))})
}

type iterInfo struct {
	m, keys *Term
	mt      *types.Map
}

func copyIters(m map[int]*iterInfo) map[int]*iterInfo {
	n := map[int]*iterInfo{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// ---------- type assertions ----------

func (x *Exec) typeAssert(s *State, i *ssa.TypeAssert, set func(Val)) {
	v := x.val(s, i.X)
	_, toIfc := i.AssertedType.Underlying().(*types.Interface)
	fin := func(val Val, ok *Term) {
		if i.CommaOk {
			if ok == True {
				set(TupleV{val, True})
			} else if ok == False {
				set(TupleV{zeroVal(i.AssertedType), False})
			} else {
				zt := s.fold(i.AssertedType, zeroVal(i.AssertedType))
				vt := s.fold(i.AssertedType, val)
				set(TupleV{s.unfold(i.AssertedType, Ite(ok, vt, zt)), ok})
			}
			return
		}
		x.require(s, "safe", "type-assert", ok)
		if !s.dead {
			set(val)
		}
	}
	switch iv := v.(type) {
	case *IfaceV:
		if iv.T == nil {
			fin(zeroVal(i.AssertedType), False)
			return
		}
		if toIfc {
			fin(iv, Bool(types.Implements(iv.T, i.AssertedType.Underlying().(*types.Interface))))
			return
		}
		if types.Identical(iv.T, i.AssertedType) {
			fin(iv.V, True)
		} else {
			fin(zeroVal(i.AssertedType), False)
		}
	case *SymIfc:
		if toIfc {
			ok := mk("ifc.impl<"+shortType(i.AssertedType)+">", "Bool", iv.t)
			s.assume(Implies(ok, Not(Eq(iv.t, ifcNil))))
			if i.CommaOk {
				set(TupleV{s.unfoldIfc(Ite(ok, iv.t, ifcNil)), ok})
				return
			}
			fin(iv, ok)
			return
		}
		ct := ifcCtor(i.AssertedType)
		ok := Eq(ifcTagOf(iv.t), ifcTag(i.AssertedType))
		pl := ifcPayload(i.AssertedType, iv.t)
		s.assume(Implies(ok, Eq(iv.t, mk(ct, "Ifc", pl))))
		mt, mf := x.decide(s, ok)
		if mt && mf {
			// fork on the dynamic type
			s2 := s.clone()
			s2.assume(Not(ok))
			x.work = append(x.work, s2)
			s.assume(ok)
		}
		if !mt {
			fin(zeroVal(i.AssertedType), False)
			return
		}
		if s.pcset[Not(ok)] {
			fin(zeroVal(i.AssertedType), False)
			return
		}
		s.assume(ok)
		fin(s.unfold(i.AssertedType, pl), True)
	default:
		panic(fmt.Sprintf("typeassert %T", v))
	}
	_ = strings.TrimSpace
}
