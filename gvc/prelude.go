package main

import (
	"go/types"
	"fmt"
	"math/big"
	"os"
	"strings"
)

// ---------- s-expressions ----------

type Sx struct {
	atom string
	quot bool
	list []*Sx
	isL  bool
	line int
}

func (s *Sx) String() string {
	if !s.isL {
		return s.atom
	}
	var p []string
	for _, x := range s.list {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSx(src string) ([]*Sx, error) {
	var stack []*Sx
	root := &Sx{isL: true}
	stack = append(stack, root)
	line := 1
	i := 0
	push := func(x *Sx) {
		t := stack[len(stack)-1]
		x.line = line
		t.list = append(t.list, x)
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '(':
			x := &Sx{isL: true}
			push(x)
			stack = append(stack, x)
			i++
		case c == ')':
			if len(stack) == 1 {
				return nil, fmt.Errorf("line %d: unbalanced )", line)
			}
			stack = stack[:len(stack)-1]
			i++
		case c == '|':
			j := strings.IndexByte(src[i+1:], '|')
			if j < 0 {
				return nil, fmt.Errorf("line %d: unterminated |", line)
			}
			push(&Sx{atom: src[i+1 : i+1+j], quot: true})
			i += j + 2
		case c == '"':
			j := strings.IndexByte(src[i+1:], '"')
			push(&Sx{atom: src[i : i+j+2]})
			i += j + 2
		default:
			j := i
			for j < len(src) && !strings.ContainsRune(" \t\r\n();|", rune(src[j])) {
				j++
			}
			push(&Sx{atom: src[i:j]})
			i = j
		}
	}
	if len(stack) != 1 {
		return nil, fmt.Errorf("unbalanced ( starting at line %d", stack[len(stack)-1].line)
	}
	return root.list, nil
}

// ---------- spec functions ----------

type SpecFn struct {
	Name   string
	Params []*Term // bound vars
	Ret    string
	Body   *Term // nil: uninterpreted
	Rec    bool  // unfolded by PLE rather than macro expanded
	sorts  []string
}

type Lemma struct {
	Name     string
	Vars     []*Term
	Trig     [][]*Term
	Body     *Term
	Induct   string // variable for induction (int) or ""
	Down     *Term  // custom: instance hypotheses
	Hyps     []map[string]*Term
	Struct   *Term
	Axiom    bool
	Note     string
	Props    []string
	Fuel     int
	proved   bool
	assumeOK bool
	file     string
	Uses     []string
	Cases    []*Term
	Hints    []*Term
}

var specFns = map[string]*SpecFn{}
var lemmas []*Lemma
var axiomNotes []string

func sxSort(s *Sx) string {
	if !s.isL {
		if strings.HasPrefix(s.atom, "go:") {
			return sortOf(mustType(s.atom[3:]))
		}
		return s.atom
	}
	switch s.list[0].atom {
	case "Seq":
		return SeqSort(sxSort(s.list[1]))
	case "Array":
		return ArraySort(sxSort(s.list[1]), sxSort(s.list[2]))
	case "Sl":
		return sliceSort(sxSort(s.list[1]))
	case "Opt":
		return optSort(sxSort(s.list[1]))
	}
	panic("bad sort " + s.String())
}

func loadPrelude(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	return loadPreludeText(file, string(b))
}

func loadPreludeText(file, src string) (err error) {
	xs, err := parseSx(src)
	if err != nil {
		return fmt.Errorf("%s: %v", file, err)
	}
	for _, x := range xs {
		if e := loadPreludeItem(file, x); e != nil {
			return fmt.Errorf("%s:%d: %v", file, x.line, e)
		}
	}
	return nil
}

func loadPreludeItem(file string, x *Sx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GVC_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	l := x.list
	switch l[0].atom {
	case "gosort":
		for _, a := range l[1:] {
			sortOf(mustType(strings.Trim(a.atom, "\"")))
		}
	case "ghost":
		ghostSorts[l[1].atom] = sxSort(l[2])
	case "declare-fun":
		f := &SpecFn{Name: l[1].atom, Ret: sxSort(l[3])}
		for _, p := range l[2].list {
			f.sorts = append(f.sorts, sxSort(p))
		}
		if specFns[f.Name] != nil {
			return fmt.Errorf("duplicate %s", f.Name)
		}
		specFns[f.Name] = f
	case "declare-datatype":
		// (declare-datatype Name (ctor (f S)...) ...)
		d := &dtInfo{name: l[1].atom}
		dts[d.name] = d
		dtOrder = append(dtOrder, d.name)
		for _, c := range l[2:] {
			ci := &ctorInfo{name: c.list[0].atom}
			for _, f := range c.list[1:] {
				ci.fields = append(ci.fields, fieldInfo{f.list[0].atom, sxSort(f.list[1])})
			}
			d.ctors = append(d.ctors, ci)
		}
		registerCtors(d)
	case "define-fun", "define-rec":
		f := &SpecFn{Name: l[1].atom, Ret: sxSort(l[3]), Rec: l[0].atom == "define-rec"}
		env := map[string]*Term{}
		for _, p := range l[2].list {
			v := BoundVar(f.Name+"."+p.list[0].atom, sxSort(p.list[1]))
			f.Params = append(f.Params, v)
			f.sorts = append(f.sorts, v.sort)
			env[p.list[0].atom] = v
		}
		if specFns[f.Name] != nil {
			return fmt.Errorf("duplicate %s", f.Name)
		}
		specFns[f.Name] = f
		f.Body = sxTerm(l[4], env)
		if f.Body.sort != f.Ret {
			return fmt.Errorf("%s: body sort %s, declared %s", f.Name, f.Body.sort, f.Ret)
		}
	case "lemma", "axiom":
		lm := &Lemma{Name: l[1].atom, Axiom: l[0].atom == "axiom", file: file, Fuel: 2}
		env := map[string]*Term{}
		for _, p := range l[2].list {
			v := BoundVar(lm.Name+"."+p.list[0].atom, sxSort(p.list[1]))
			lm.Vars = append(lm.Vars, v)
			env[p.list[0].atom] = v
		}
		for _, c := range l[3 : len(l)-1] {
			switch c.list[0].atom {
			case ":trigger":
				var ts []*Term
				for _, t := range c.list[1:] {
					ts = append(ts, sxTerm(t, env))
				}
				lm.Trig = append(lm.Trig, ts)
			case ":induct":
				lm.Induct = c.list[1].atom
			case ":ih": // (:ih (x term) ...)  induction hypothesis instance, needs decreasing measure
				h := map[string]*Term{}
				for _, b := range c.list[1:] {
					h[b.list[0].atom] = sxTerm(b.list[1], env)
				}
				lm.Hyps = append(lm.Hyps, h)
			case ":measure":
				lm.Down = sxTerm(c.list[1], env)
			case ":structural": // (:structural x): induction over the datatype value x
				lm.Struct = env[c.list[1].atom]
			case ":fuel":
				fmt.Sscan(c.list[1].atom, &lm.Fuel)
			case ":use":
				for _, u := range c.list[1:] {
					lm.Uses = append(lm.Uses, u.atom)
				}
			case ":hint":
				for _, u := range c.list[1:] {
					lm.Hints = append(lm.Hints, sxTerm(u, env))
				}
			case ":case":
				for _, u := range c.list[1:] {
					lm.Cases = append(lm.Cases, sxTerm(u, env))
				}
			case ":note":
				lm.Note = strings.Trim(c.list[1].atom, `"`)
			default:
				return fmt.Errorf("bad lemma clause %s", c)
			}
		}
		lm.Body = sxTerm(l[len(l)-1], env)
		lemmas = append(lemmas, lm)
		if lm.Axiom {
			axiomNotes = append(axiomNotes, lm.Name+": "+lm.Note)
		}
	default:
		return fmt.Errorf("unknown prelude item %s", l[0].atom)
	}
	return nil
}

func sxTerm(s *Sx, env map[string]*Term) *Term {
	if !s.isL {
		if v, ok := env[s.atom]; ok {
			return v
		}
		if !s.quot {
			if n, ok := new(big.Int).SetString(s.atom, 0); ok {
				return BigI(n)
			}
			if strings.HasPrefix(s.atom, "\"") {
				return seqOfBytes([]byte(s.atom[1 : len(s.atom)-1]))
			}
		}
		switch s.atom {
		case "true":
			return True
		case "false":
			return False
		case "ifc.nil":
			return ifcNil
		case "fnnil":
			return Const("fn.nil", "Fn")
		}
		if c, ok := ctorOf[s.atom]; ok && len(c.fields) == 0 {
			return Ctor(s.atom)
		}
		if f, ok := specFns[s.atom]; ok && len(f.sorts) == 0 {
			return applySpec(f, nil)
		}
		panic("unbound symbol " + s.atom)
	}
	h := s.list[0]
	if h.isL {
		// (_ is X) etc
		if h.list[0].atom == "_" && h.list[1].atom == "is" {
			return Is(h.list[2].atom, sxTerm(s.list[1], env))
		}
		if h.list[0].atom == "as" {
			panic("as")
		}
		panic("bad head " + h.String())
	}
	if h.atom == "as" {
		if s.list[1].atom == "seq.empty" {
			so := sxSort(s.list[2])
			return SeqEmpty(seqElemSort(so))
		}
		panic("as " + s.String())
	}
	if h.atom == "is" || h.atom == "cast" { // (is "type" x) (cast "type" x): interface values
		t := mustType(strings.Trim(s.list[1].atom, `"`))
		v := sxTerm(s.list[2], env)
		if h.atom == "is" {
			ifcCtor(t)
			return Eq(ifcTagOf(v), ifcTag(t))
		}
		return ifcPayload(t, v)
	}
	if h.atom == "nilmap" { // (nilmap "type")
		mt := mustType(strings.Trim(s.list[1].atom, `"`)).Underlying().(*types.Map)
		ks, vs := mapKV(mt)
		return mapMk(sortOf(mt), True, ConstArray(ks, optNone(vs)))
	}
	if h.atom == "let" {
		ne := map[string]*Term{}
		for k, v := range env {
			ne[k] = v
		}
		for _, b := range s.list[1].list {
			ne[b.list[0].atom] = sxTerm(b.list[1], env)
		}
		return sxTerm(s.list[2], ne)
	}
	if h.atom == "forall" || h.atom == "exists" {
		ne := map[string]*Term{}
		for k, v := range env {
			ne[k] = v
		}
		var bs []*Term
		for _, b := range s.list[1].list {
			v := newBound(b.list[0].atom, sxSort(b.list[1]))
			ne[b.list[0].atom] = v
			bs = append(bs, v)
		}
		body := sxTerm(s.list[len(s.list)-1], ne)
		if h.atom == "forall" {
			return Forall(bs, body)
		}
		return Exists(bs, body)
	}
	var args []*Term
	for _, a := range s.list[1:] {
		args = append(args, sxTerm(a, env))
	}
	return applyNamed(h.atom, args)
}

var boundN int

func newBound(n, so string) *Term {
	boundN++
	return BoundVar(fmt.Sprintf("%s?%d", n, boundN), so)
}

func seqOfBytes(b []byte) *Term {
	var us []*Term
	for _, c := range b {
		us = append(us, SeqUnit(Int(int64(c))))
	}
	if len(us) == 0 {
		return SeqEmpty("Int")
	}
	return SeqCat(us...)
}

// coerce a term to the wanted sort when there is an obvious view.
func coerce(t *Term, want string) *Term {
	if t.sort == want {
		return t
	}
	if isSliceSort(t.sort) && SeqSort(slElem(t.sort)) == want {
		return slData(t)
	}
	if strings.HasPrefix(t.sort, "P<") {
		v := ptrVal(t)
		if v.sort == want {
			return v
		}
		return coerce(v, want)
	}
	panic(fmt.Sprintf("cannot use %s (sort %s) as %s", t, t.sort, want))
}

func asSeq(t *Term) *Term {
	if isSliceSort(t.sort) {
		return slData(t)
	}
	if strings.HasPrefix(t.sort, "P<") {
		return asSeq(ptrVal(t))
	}
	return t
}

func applySpec(f *SpecFn, args []*Term) *Term {
	if len(args) != len(f.sorts) {
		panic(fmt.Sprintf("%s: %d args, want %d", f.Name, len(args), len(f.sorts)))
	}
	as := make([]*Term, len(args))
	for i := range args {
		as[i] = coerce(args[i], f.sorts[i])
	}
	if f.Body != nil && !f.Rec {
		m := map[*Term]*Term{}
		for i, p := range f.Params {
			m[p] = as[i]
		}
		return subst(f.Body, m)
	}
	return mk(f.Name, f.Ret, as...)
}

// SubX is seq.extract with no bounds assumption except cheap sound rewrites.
func SubX(s, i, j *Term) *Term {
	s = asSeq(s)
	if i.isInt() && i.ival.Sign() == 0 && j == SeqLen(s) {
		return s
	}
	n := Sub(j, i)
	if n.isInt() && n.ival.Sign() <= 0 {
		return SeqEmpty(seqElemSort(s.sort))
	}
	if s.op == "seq.++" {
		// concrete prefix cases are sound when i,j land on part boundaries
		var pre []*Term
		acc := Int(0)
		start := -1
		for k := 0; k <= len(s.args); k++ {
			if acc == i && start < 0 {
				start = k
				pre = nil
			}
			if start >= 0 && acc == j {
				if len(pre) == 0 {
					return SeqEmpty(seqElemSort(s.sort))
				}
				return SeqCat(pre...)
			}
			if k < len(s.args) {
				pre = append(pre, s.args[k])
				acc = Add(acc, SeqLen(s.args[k]))
			}
		}
	}
	return mk("seq.extract", s.sort, s, i, n)
}

func applyNamed(op string, args []*Term) *Term {
	if f, ok := specFns[op]; ok {
		return applySpec(f, args)
	}
	switch op {
	case "and", "or", "not", "=>", "ite", "=", "distinct", "+", "-", "*", "div", "mod", "<=", "<", ">=", ">",
		"seq.len", "seq.nth", "seq.++", "seq.unit", "select", "store":
		return mkApp(op, "", args)
	case "seq.extract":
		return SubX(args[0], args[1], Add(args[1], args[2]))
	case "sub": // s i j
		return SubX(args[0], args[1], args[2])
	case "dt": // data of slice
		return asSeq(args[0])
	case "data":
		return asSeq(args[0])
	case "val":
		return ptrVal(args[0])
	case "isnil":
		return isNilTerm(args[0])
	case "to_int":
		return mk("to_int", "Int", args[0])
	case "map.data":
		return mapData(args[0])
	case "map.put": // m k v
		return mapMk(args[0].sort, False, Store(mapData(args[0]), args[1], optSome(args[2])))
	case "map.keys": // the keys in the order of iteration number i
		d := mapData(args[0])
		ks, _ := arraySorts(d.sort)
		return mk("map.keys<"+args[0].sort+">", SeqSort(ks), args[0], args[1])
	case "some":
		return optSome(args[0])
	case "issome":
		return optIsSome(args[0])
	case "the":
		return optThe(args[0])
	case "sl":
		return slMk(False, args[0])
	case "ref":
		return ptrRef("P<"+args[0].sort+">", args[0])
	}
	if _, ok := selOf[op]; ok {
		return Sel(op, args[0])
	}
	if strings.HasPrefix(op, ".") { // (.field x)
		return fieldTerm(args[0], op[1:])
	}
	if _, ok := ctorOf[op]; ok {
		return Ctor(op, args...)
	}
	if strings.HasPrefix(op, "mk:") {
		return Ctor("mk<"+op[3:]+">", args...)
	}
	panic("unknown function " + op)
}

func isNilTerm(t *Term) *Term {
	switch {
	case isSliceSort(t.sort):
		return slNil(t)
	case isMapSort(t.sort):
		return mapNil(t)
	case t.sort == "Ifc":
		return Eq(t, ifcNil)
	case t.sort == "Fn":
		return Eq(t, Const("fn.nil", "Fn"))
	case t.sort == "Ext" || strings.HasPrefix(t.sort, "P<"):
		return ptrIsNil(t)
	}
	panic("nil comparison on sort " + t.sort)
}

func fieldTerm(t *Term, f string) *Term {
	for strings.HasPrefix(t.sort, "P<") {
		t = ptrVal(t)
	}
	d := dts[t.sort]
	if d == nil || len(d.ctors) != 1 {
		panic(fmt.Sprintf("field .%s on sort %s", f, t.sort))
	}
	for _, fi := range d.ctors[0].fields {
		if strings.HasSuffix(fi.name, "."+f) && fi.name == t.sort+"."+f {
			return Sel(fi.name, t)
		}
	}
	// embedded structs
	for _, fi := range d.ctors[0].fields {
		fs := fi.sort
		base := strings.TrimSuffix(strings.TrimPrefix(fs, "P<"), ">")
		if k := strings.LastIndexByte(base, '.'); k >= 0 && fi.name == t.sort+"."+base[k+1:] {
			sub := Sel(fi.name, t)
			if ok := hasField(sub.sort, f); ok {
				return fieldTerm(sub, f)
			}
		}
	}
	panic(fmt.Sprintf("no field %s in %s", f, t.sort))
}

func hasField(so, f string) bool {
	so = strings.TrimPrefix(so, "P<")
	so = strings.TrimSuffix(so, ">")
	d := dts[so]
	if d == nil || len(d.ctors) != 1 {
		return false
	}
	for _, fi := range d.ctors[0].fields {
		if fi.name == so+"."+f {
			return true
		}
	}
	return false
}
