package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// Spec expressions use Go expression syntax.

type specEnv struct {
	vars map[string]*Term
	old  map[string]*Term
}

func (e *specEnv) with(n string, t *Term) *specEnv {
	m := map[string]*Term{}
	for k, v := range e.vars {
		m[k] = v
	}
	m[n] = t
	return &specEnv{m, e.old}
}

func parseSpec(s string) (ast.Expr, error) {
	// allow ==> as implication at top level (right assoc, lowest precedence)
	return parser.ParseExpr(implToCall(s))
}

// implToCall rewrites "a ==> b" to "implies(a, b)" at paren depth 0 (recursively inside parens is not needed
// because users can write implies()).
func implToCall(s string) string {
	d := 0
	for i := 0; i+2 < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"':
			j := strings.IndexByte(s[i+1:], '"')
			i += j + 1
			continue
		case '=':
			if d == 0 && strings.HasPrefix(s[i:], "==>") {
				return "implies(" + s[:i] + ", " + implToCall(s[i+3:]) + ")"
			}
		}
	}
	// inside parens
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '(' {
			// find the matching paren
			dd := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '(' {
					dd++
				} else if s[j] == ')' {
					dd--
					if dd == 0 {
						break
					}
				}
			}
			if j < len(s) && strings.Contains(s[i+1:j], "==>") {
				// split args on top-level commas
				inner := s[i+1 : j]
				parts := splitTop(inner)
				for k := range parts {
					parts[k] = implToCall(parts[k])
				}
				sb.WriteString("(" + strings.Join(parts, ",") + ")")
				i = j
				continue
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func (e *specEnv) eval(x ast.Expr) *Term {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(strings.ReplaceAll(x.Value, "_", ""), 0)
			if !ok {
				panic("bad int " + x.Value)
			}
			return BigI(n)
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				panic(err)
			}
			return seqOfBytes([]byte(s))
		case token.CHAR:
			s, _, _, err := strconv.UnquoteChar(x.Value[1:], '\'')
			if err != nil {
				panic(err)
			}
			return Int(int64(s))
		}
	case *ast.Ident:
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return True
		case "false":
			return False
		case "fnnil":
			return Const("fn.nil", "Fn")
		}
		if f, ok := specFns[x.Name]; ok && len(f.sorts) == 0 {
			return applySpec(f, nil)
		}
		if c, ok := ctorOf[x.Name]; ok && len(c.fields) == 0 {
			return Ctor(x.Name)
		}
		panic("spec: unbound identifier " + x.Name)
	case *ast.SelectorExpr:
		return fieldTerm(e.eval(x.X), x.Sel.Name)
	case *ast.StarExpr:
		return ptrVal(e.eval(x.X))
	case *ast.UnaryExpr:
		v := e.eval(x.X)
		switch x.Op {
		case token.NOT:
			return Not(v)
		case token.SUB:
			return Neg(v)
		}
	case *ast.BinaryExpr:
		if x.Op == token.EQL || x.Op == token.NEQ {
			var r *Term
			if id, ok := x.Y.(*ast.Ident); ok && id.Name == "nil" {
				r = isNilTerm(e.eval(x.X))
			} else {
				a, b := e.eval(x.X), e.eval(x.Y)
				if a.sort != b.sort {
					if strings.HasPrefix(a.sort, "(Seq ") {
						b = coerce(b, a.sort)
					} else {
						a = coerce(a, b.sort)
					}
				}
				r = Eq(a, b)
			}
			if x.Op == token.NEQ {
				return Not(r)
			}
			return r
		}
		a, b := e.eval(x.X), e.eval(x.Y)
		switch x.Op {
		case token.LAND:
			return And(a, b)
		case token.LOR:
			return Or(a, b)
		case token.ADD:
			if strings.HasPrefix(asSeq(a).sort, "(Seq ") {
				return SeqCat(asSeq(a), asSeq(b))
			}
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			return Div(a, b)
		case token.REM:
			return Mod(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		case token.GEQ:
			return Ge(a, b)
		}
	case *ast.IndexExpr:
		a := e.eval(x.X)
		i := e.eval(x.Index)
		if isMapSort(a.sort) {
			return optThe(Select(mapData(a), i))
		}
		return SeqNth(asSeq(a), i)
	case *ast.SliceExpr:
		a := asSeq(e.eval(x.X))
		lo := Int(0)
		hi := SeqLen(a)
		if x.Low != nil {
			lo = e.eval(x.Low)
		}
		if x.High != nil {
			hi = e.eval(x.High)
		}
		return SubX(a, lo, hi)
	case *ast.CallExpr:
		return e.call(x)
	}
	panic(fmt.Sprintf("spec: unsupported expression %T", x))
}

func (e *specEnv) call(x *ast.CallExpr) *Term {
	name := exprName(x.Fun)
	switch name {
	case "old":
		return (&specEnv{e.old, e.old}).eval(x.Args[0])
	case "implies":
		a := e.eval(x.Args[0])
		if a == False {
			return True
		}
		return Implies(a, e.eval(x.Args[1]))
	case "iff":
		return Eq(e.eval(x.Args[0]), e.eval(x.Args[1]))
	case "ite":
		return Ite(e.eval(x.Args[0]), e.eval(x.Args[1]), e.eval(x.Args[2]))
	case "len":
		return SeqLen(asSeq(e.eval(x.Args[0])))
	case "dt", "data":
		return asSeq(e.eval(x.Args[0]))
	case "cat":
		var ts []*Term
		for _, a := range x.Args {
			ts = append(ts, asSeq(e.eval(a)))
		}
		return SeqCat(ts...)
	case "unit":
		return SeqUnit(e.eval(x.Args[0]))
	case "empty":
		return SeqEmpty("Int")
	case "at":
		return SeqNth(asSeq(e.eval(x.Args[0])), e.eval(x.Args[1]))
	case "sub":
		return SubX(e.eval(x.Args[0]), e.eval(x.Args[1]), e.eval(x.Args[2]))
	case "has":
		m := e.eval(x.Args[0])
		return optIsSome(Select(mapData(m), e.eval(x.Args[1])))
	case "get":
		m := e.eval(x.Args[0])
		return Select(mapData(m), e.eval(x.Args[1]))
	case "put":
		m := e.eval(x.Args[0])
		return Store(mapData(m), e.eval(x.Args[1]), optSome(e.eval(x.Args[2])))
	case "global": // a package variable of interface type
		return Const("glob:"+litStr(x.Args[0]), "Ifc")
	case "isnil":
		return isNilTerm(e.eval(x.Args[0]))
	case "forall", "exists":
		// forall(i, lo, hi, body)
		id := x.Args[0].(*ast.Ident).Name
		v := newBound(id, "Int")
		lo, hi := e.eval(x.Args[1]), e.eval(x.Args[2])
		b := e.with(id, v).eval(x.Args[3])
		rng := And(Le(lo, v), Lt(v, hi))
		if name == "forall" {
			return Forall([]*Term{v}, Implies(rng, b))
		}
		return Exists([]*Term{v}, And(rng, b))
	case "is": // is(x, "type") interface dynamic type
		t := mustType(litStr(x.Args[1]))
		ifcCtor(t)
		return Eq(ifcTagOf(e.eval(x.Args[0])), ifcTag(t))
	case "as": // payload
		t := mustType(litStr(x.Args[1]))
		return ifcPayload(t, e.eval(x.Args[0]))
	case "ifc": // ifc("type", value)
		t := mustType(litStr(x.Args[0]))
		v := e.eval(x.Args[1])
		return mk(ifcCtor(t), "Ifc", coerce(v, sortOf(t)))
	case "ext": // ext("external struct type", "Field", pointer)
		st := mustType(litStr(x.Args[0]))
		u := st.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == litStr(x.Args[1]) {
				return mk(fmt.Sprintf("ext.field<%s.%d>", shortType(st), i), sortOf(u.Field(i).Type()), e.eval(x.Args[2]))
			}
		}
		panic("spec: no field " + litStr(x.Args[1]))
	case "const": // const("name","sort")
		return Const(litStr(x.Args[0]), litStr(x.Args[1]))
	case "isctor":
		return Is(litStr(x.Args[0]), e.eval(x.Args[1]))
	}
	var args []*Term
	for _, a := range x.Args {
		args = append(args, e.eval(a))
	}
	return applyNamed(name, args)
}

func litStr(x ast.Expr) string {
	s, err := strconv.Unquote(x.(*ast.BasicLit).Value)
	if err != nil {
		panic(err)
	}
	return s
}

func exprName(x ast.Expr) string {
	switch x := x.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return exprName(x.X) + "." + x.Sel.Name
	}
	panic("bad call head")
}
