package main

import (
	"sync"
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

const modPath = "github.com/icon-project/btp"

// special external types whose abstract value is a plain term.
var specialSort = map[string]string{
	"math/big.Int":    "Int",
	"bytes.Buffer":    "(Seq Int)",
	"sync.Mutex":      "Bool", // held
	"sync.RWMutex":    "Bool",
	"strings.Builder": "(Seq Int)",
}

// external struct types that are expanded field by field.
var expandExt = map[string]bool{"io.LimitedReader": true}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		pp := p.Path()
		pp = strings.TrimPrefix(pp, modPath+"/")
		return pp
	})
	return s
}

var sortCache = map[string]string{}

func isExtOpaque(n *types.Named) bool {
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if strings.HasPrefix(p.Path(), modPath) || expandExt[p.Path()+"."+n.Obj().Name()] {
		return false
	}
	_, ok := n.Underlying().(*types.Struct)
	return ok
}

func named(t types.Type) *types.Named {
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	return n
}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	k := typeKey(t)
	if s, ok := sortCache[k]; ok {
		return s
	}
	s := sortOf0(t, k)
	sortCache[k] = s
	return s
}

func sortOf0(t types.Type, k string) string {
	if s, ok := specialSort[k]; ok {
		return s
	}
	if n, ok := t.(*types.Named); ok && isExtOpaque(n) {
		return "Ext"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "(Seq Int)"
		case u.Kind() == types.UntypedNil:
			return "Ext"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		default:
			return "Ext"
		}
	case *types.Struct:
		name := shortType(t)
		sortCache[k] = name
		c := &ctorInfo{name: "mk<" + name + ">"}
		if u.NumFields() == 0 {
			declDT(name, c)
			return name
		}
		d := &dtInfo{name, []*ctorInfo{c}}
		dts[name] = d
		dtOrder = append(dtOrder, name)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c.fields = append(c.fields, fieldInfo{name + "." + f.Name() + dupSuffix(u, i), sortOf(f.Type())})
		}
		registerCtors(d)
		return name
	case *types.Pointer:
		es := ""
		if n := named(u.Elem()); n != nil && isExtOpaque(n) && specialSort[typeKey(n)] == "" {
			return "Ext" // pointer to opaque external struct: opaque (nil = ext.nil)
		}
		name := "P<" + shortType(u.Elem()) + ">"
		if _, ok := dts[name]; ok {
			return name
		}
		sortCache[k] = name
		d := &dtInfo{name, []*ctorInfo{{name: "nil<" + name + ">"}, {name: "ref<" + name + ">"}}}
		dts[name] = d
		dtOrder = append(dtOrder, name)
		es = sortOf(u.Elem())
		d.ctors[1].fields = []fieldInfo{{"val<" + name + ">", es}}
		registerCtors(d)
		return name
	case *types.Slice:
		return sliceSort(sortOf(u.Elem()))
	case *types.Array:
		return SeqSort(sortOf(u.Elem()))
	case *types.Map:
		return mapSort(sortOf(u.Key()), sortOf(u.Elem()))
	case *types.Interface:
		return "Ifc"
	case *types.Signature:
		return "Fn"
	case *types.Chan:
		return "Ext"
	case *types.Tuple:
		return "Ext"
	}
	panic(fmt.Sprintf("sortOf: %s (%T)", t, t))
}

func dupSuffix(u *types.Struct, i int) string {
	for j := 0; j < i; j++ {
		if u.Field(j).Name() == u.Field(i).Name() {
			return fmt.Sprintf("#%d", i)
		}
	}
	return ""
}

func structField(t types.Type, i int) string {
	s := sortOf(t)
	return dts[s].ctors[0].fields[i].name
}

func sliceSort(es string) string {
	name := "Sl<" + es + ">"
	if _, ok := dts[name]; !ok {
		declDT(name, &ctorInfo{name: "sl<" + es + ">", fields: []fieldInfo{{"slnil<" + es + ">", "Bool"}, {"sldata<" + es + ">", SeqSort(es)}}})
	}
	return name0(name)
}

// sort names are printed raw; quote when needed
func name0(n string) string { return n }

func mapSort(ks, vs string) string {
	name := "Map<" + ks + "," + vs + ">"
	if _, ok := dts[name]; !ok {
		optSort(vs)
		declDT(name, &ctorInfo{name: "map<" + ks + "," + vs + ">", fields: []fieldInfo{
			{"mapnil<" + ks + "," + vs + ">", "Bool"},
			{"mapdata<" + ks + "," + vs + ">", ArraySort(ks, optSort(vs))}}})
	}
	return name
}

func optSort(vs string) string {
	name := "Opt<" + vs + ">"
	if _, ok := dts[name]; !ok {
		declDT(name, &ctorInfo{name: "none<" + vs + ">"}, &ctorInfo{name: "some<" + vs + ">", fields: []fieldInfo{{"the<" + vs + ">", vs}}})
	}
	return name
}

func ptrNil(sort string) *Term {
	if sort == "Ext" {
		return Const("ext.nil", "Ext")
	}
	return Ctor("nil<" + sort + ">")
}
func ptrRef(sort string, v *Term) *Term { return Ctor("ref<"+sort+">", v) }
func ptrVal(t *Term) *Term              { return Sel("val<"+t.sort+">", t) }
func ptrIsNil(t *Term) *Term {
	if t.sort == "Ext" {
		return Eq(t, Const("ext.nil", "Ext"))
	}
	return Is("nil<"+t.sort+">", t)
}

func isSliceSort(s string) bool { return strings.HasPrefix(s, "Sl<") }
func slElem(s string) string    { return s[3 : len(s)-1] }
func slMk(nilc, data *Term) *Term {
	es := seqElemSort(data.sort)
	sliceSort(es)
	return Ctor("sl<"+es+">", nilc, data)
}
func slNil(t *Term) *Term  { return Sel("slnil<"+slElem(t.sort)+">", t) }
func slData(t *Term) *Term { return Sel("sldata<"+slElem(t.sort)+">", t) }

func isMapSort(s string) bool { return strings.HasPrefix(s, "Map<") }
func mapNil(t *Term) *Term    { return Sel("mapnil<"+t.sort[4:len(t.sort)-1]+">", t) }
func mapData(t *Term) *Term   { return Sel("mapdata<"+t.sort[4:len(t.sort)-1]+">", t) }
func mapMk(sort string, n, d *Term) *Term {
	return Ctor("map<"+sort[4:len(sort)-1]+">", n, d)
}
func optIsSome(t *Term) *Term { return Is("some<"+t.sort[4:len(t.sort)-1]+">", t) }
func optThe(t *Term) *Term    { return Sel("the<"+t.sort[4:len(t.sort)-1]+">", t) }
func optSome(v *Term) *Term {
	optSort(v.sort)
	return Ctor("some<"+v.sort+">", v)
}
func optNone(vs string) *Term {
	optSort(vs)
	return Ctor("none<" + vs + ">")
}

// integer ranges
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := intBits(b)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne), true
	}
	h := new(big.Int).Lsh(bigOne, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne), true
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func inRange(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return True
	}
	return And(Le(BigI(lo), t), Le(t, BigI(hi)))
}

func rawSort(s string) string {
	// quote sort symbols for printing
	if strings.HasPrefix(s, "(") {
		// compound: (Seq X) or (Array K V)
		if strings.HasPrefix(s, "(Seq (Seq ") {
			return "(Seq " + qsym(boxSort(s[5:len(s)-1])) + ")"
		}
		if strings.HasPrefix(s, "(Seq ") {
			return "(Seq " + rawSort(s[5:len(s)-1]) + ")"
		}
		if strings.HasPrefix(s, "(Array ") {
			k, v := arraySorts(s)
			return "(Array " + rawSort(k) + " " + rawSort(v) + ")"
		}
	}
	return qsym(s)
}

// boxSort: sequences that are elements of sequences are wrapped in a datatype when a
// query is printed, because z3 (4.8.12 and later) answers unsat on satisfiable queries
// over nested sequences.
func boxSort(s string) string {
	n := "Bx<" + s + ">"
	boxMu.Lock()
	defer boxMu.Unlock()
	if _, ok := dts[n]; !ok {
		d := &dtInfo{name: n, ctors: []*ctorInfo{{name: "bx<" + s + ">", fields: []fieldInfo{{"unbx<" + s + ">", s}}}}}
		registerCtors(d)
		dts[n] = d
	}
	return n
}

var boxMu sync.Mutex

// opText: the opening and closing of an application, with boxes
func opText(t *Term) (pre, post string, arg func(string) string) {
	if t.op == "seq.nth" && strings.HasPrefix(t.sort, "(Seq ") {
		boxSort(t.sort)
		return "(" + qsym("unbx<"+t.sort+">") + " (seq.nth", "))", nil
	}
	if t.op == "seq.unit" && strings.HasPrefix(t.args[0].sort, "(Seq ") {
		s := t.args[0].sort
		boxSort(s)
		return "(seq.unit", ")", func(a string) string { return "(" + qsym("bx<"+s+">") + " " + a + ")" }
	}
	return "(" + qsym(t.op), ")", nil
}
