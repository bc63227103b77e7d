package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// stubs: exact models of standard-library functions (part of the trusted base; each use is listed).
var stubs map[string]func(x *Exec, s *State, a []Val, t []types.Type) (Val, bool)

func seqOf(s *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *SliceV:
		return s.sliceData(v)
	}
	panic("seqOf")
}

func isPrefix(s, p *Term) *Term {
	return And(Le(SeqLen(p), SeqLen(s)), Eq(SubX(s, Int(0), SeqLen(p)), p))
}

func (x *Exec) bigPtr(s *State, v Val) (*PtrV, *Term) {
	if t, ok := v.(*Term); ok {
		_ = t
		panic(unsupported("opaque big.Int"))
	}
	p := x.deref(s, v, "big.Int")
	if s.dead {
		panic(dropPath{})
	}
	return p, x.load(s, p).(*Term)
}

func bytesVal(s *State, t *Term) Val {
	id := s.alloc(types.NewSlice(types.Typ[types.Uint8]), t, "bytes")
	s.assume(isBytes(t))
	return &SliceV{ET: types.Typ[types.Uint8], Obj: id, Off: Int(0), Len: SeqLen(t), Cap: SeqLen(t)}
}

func bitIte(c, a, b *Term) *Term { return Ite(c, a, b) }

func init() {
	type st = func(x *Exec, s *State, a []Val, t []types.Type) (Val, bool)
	use := func(k string) { eng.note("standard library model: " + k) }
	stubs = map[string]st{}
	def := func(k string, f func(x *Exec, s *State, a []Val) Val) {
		stubs[k] = func(x *Exec, s *State, a []Val, t []types.Type) (Val, bool) {
			use(k)
			return f(x, s, a), true
		}
	}
	def("bytes.Equal", func(x *Exec, s *State, a []Val) Val { return Eq(seqOf(s, a[0]), seqOf(s, a[1])) })
	def("bytes.HasPrefix", func(x *Exec, s *State, a []Val) Val { return isPrefix(seqOf(s, a[0]), seqOf(s, a[1])) })
	def("strings.HasPrefix", func(x *Exec, s *State, a []Val) Val { return isPrefix(seqOf(s, a[0]), seqOf(s, a[1])) })
	def("strings.HasSuffix", func(x *Exec, s *State, a []Val) Val {
		u, v := seqOf(s, a[0]), seqOf(s, a[1])
		return And(Le(SeqLen(v), SeqLen(u)), Eq(SubX(u, Sub(SeqLen(u), SeqLen(v)), SeqLen(u)), v))
	})
	// locks
	lockOp := func(held bool, read bool) func(x *Exec, s *State, a []Val) Val {
		return func(x *Exec, s *State, a []Val) Val {
			p := x.deref(s, a[0], "mutex")
			if s.dead {
				return TupleV{}
			}
			o := *s.store[p.Obj]
			if pk := fmt.Sprint(p.Path); !o.locked[pk] {
				// a lock is free when the function first takes it
				m := map[string]bool{pk: true}
				for k := range o.locked {
					m[k] = true
				}
				o.locked = m
				s.store[p.Obj] = &o
				if c := x.load(s, p).(*Term); c != False && c != True {
					s.assume(Not(c))
					s.setObj(p.Obj, s.storePath(o.T, o.V, p.Path, False))
				}
			}
			cur := x.load(s, p).(*Term)
			if held {
				x.require(s, "safe", "lock-free", Not(cur))
				s.setObj(p.Obj, s.storePath(o.T, s.obj(p.Obj).V, p.Path, True))
			} else {
				x.require(s, "safe", "unlock-held", cur)
				s.setObj(p.Obj, s.storePath(o.T, s.obj(p.Obj).V, p.Path, False))
			}
			return TupleV{}
		}
	}
	def("(*sync.Mutex).Lock", lockOp(true, false))
	def("(*sync.Mutex).Unlock", lockOp(false, false))
	def("(*sync.RWMutex).Lock", lockOp(true, false))
	def("(*sync.RWMutex).Unlock", lockOp(false, false))
	def("(*sync.RWMutex).RLock", lockOp(true, true))
	def("(*sync.RWMutex).RUnlock", lockOp(false, true))

	// math/big
	newBig := func(s *State, v *Term) Val {
		bt := mustType("math/big.Int")
		id := s.alloc(bt, v, "big")
		return &PtrV{Obj: id, ET: bt}
	}
	def("math/big.NewInt", func(x *Exec, s *State, a []Val) Val { return newBig(s, a[0].(*Term)) })
	setBig := func(f func(x *Exec, s *State, a []Val) *Term) func(x *Exec, s *State, a []Val) Val {
		return func(x *Exec, s *State, a []Val) Val {
			p := x.deref(s, a[0], "big.Int")
			if s.dead {
				panic(dropPath{})
			}
			v := f(x, s, a)
			x.store(s, p, v)
			return p
		}
	}
	bv := func(x *Exec, s *State, v Val) *Term { _, t := x.bigPtr(s, v); return t }
	def("(*math/big.Int).Set", setBig(func(x *Exec, s *State, a []Val) *Term { return bv(x, s, a[1]) }))
	def("(*math/big.Int).SetInt64", setBig(func(x *Exec, s *State, a []Val) *Term { return a[1].(*Term) }))
	def("(*math/big.Int).SetUint64", setBig(func(x *Exec, s *State, a []Val) *Term { return a[1].(*Term) }))
	def("(*math/big.Int).Add", setBig(func(x *Exec, s *State, a []Val) *Term { return Add(bv(x, s, a[1]), bv(x, s, a[2])) }))
	def("(*math/big.Int).Sub", setBig(func(x *Exec, s *State, a []Val) *Term { return Sub(bv(x, s, a[1]), bv(x, s, a[2])) }))
	def("(*math/big.Int).Mul", setBig(func(x *Exec, s *State, a []Val) *Term { return Mul(bv(x, s, a[1]), bv(x, s, a[2])) }))
	def("(*math/big.Int).Neg", setBig(func(x *Exec, s *State, a []Val) *Term { return Neg(bv(x, s, a[1])) }))
	def("(*math/big.Int).Abs", setBig(func(x *Exec, s *State, a []Val) *Term {
		v := bv(x, s, a[1])
		return Ite(Le(Int(0), v), v, Neg(v))
	}))
	def("(*math/big.Int).Lsh", setBig(func(x *Exec, s *State, a []Val) *Term { return Mul(bv(x, s, a[1]), pow2t(a[2].(*Term))) }))
	def("(*math/big.Int).Rsh", setBig(func(x *Exec, s *State, a []Val) *Term { return Div(bv(x, s, a[1]), pow2t(a[2].(*Term))) }))
	def("(*math/big.Int).SetBit", setBig(func(x *Exec, s *State, a []Val) *Term {
		v, i, b := bv(x, s, a[1]), a[2].(*Term), a[3].(*Term)
		x.require(s, "safe", "bit-index", Le(Int(0), i))
		x.require(s, "safe", "bit-value", And(Le(Int(0), b), Le(b, Int(1))))
		p := pow2t(i)
		if v.isInt() && v.ival.Sign() == 0 {
			return Mul(b, p)
		}
		return Add(v, Mul(Sub(b, Mod(Div(v, p), Int(2))), p))
	}))
	def("(*math/big.Int).SetBytes", setBig(func(x *Exec, s *State, a []Val) *Term {
		return mk("be", "Int", seqOf(s, a[1]))
	}))
	def("(*math/big.Int).Bytes", func(x *Exec, s *State, a []Val) Val {
		v := bv(x, s, a[0])
		return bytesVal(s, mk("bemin", "(Seq Int)", Ite(Le(Int(0), v), v, Neg(v))))
	})
	def("(*math/big.Int).BitLen", func(x *Exec, s *State, a []Val) Val {
		v := bv(x, s, a[0])
		r := mk("bitlen", "Int", Ite(Le(Int(0), v), v, Neg(v)))
		s.assume(Le(Int(0), r))
		s.assume(Le(r, BigI(maxLen)))
		return r
	})
	def("(*math/big.Int).Bit", func(x *Exec, s *State, a []Val) Val {
		v := bv(x, s, a[0])
		x.require(s, "safe", "bit-index", Le(Int(0), a[1].(*Term)))
		return Mod(Div(v, pow2t(a[1].(*Term))), Int(2))
	})
	def("(*math/big.Int).Sign", func(x *Exec, s *State, a []Val) Val {
		v := bv(x, s, a[0])
		return Ite(Lt(v, Int(0)), Int(-1), Ite(Eq(v, Int(0)), Int(0), Int(1)))
	})
	def("(*math/big.Int).Cmp", func(x *Exec, s *State, a []Val) Val {
		v, w := bv(x, s, a[0]), bv(x, s, a[1])
		return Ite(Lt(v, w), Int(-1), Ite(Eq(v, w), Int(0), Int(1)))
	})
	def("(*math/big.Int).IsInt64", func(x *Exec, s *State, a []Val) Val { return inRange(bv(x, s, a[0]), types.Typ[types.Int64]) })
	def("(*math/big.Int).IsUint64", func(x *Exec, s *State, a []Val) Val { return inRange(bv(x, s, a[0]), types.Typ[types.Uint64]) })
	def("(*math/big.Int).Int64", func(x *Exec, s *State, a []Val) Val {
		return x.wrapTo(s, bv(x, s, a[0]), types.Typ[types.Int64])
	})
	def("(*math/big.Int).Uint64", func(x *Exec, s *State, a []Val) Val {
		v := bv(x, s, a[0])
		// low 64 bits of |v| for negative values: go returns low word of abs, negated for Int64 only
		return x.wrapTo(s, Ite(Le(Int(0), v), v, Neg(v)), types.Typ[types.Uint64])
	})
	_ = big.NewInt
}
