package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // operator symbol, or variable/constant name, or literal
	args  []*Term
	sort  string
	kind  termKind
	bound []*Term // for quantifiers
	pat   [][]*Term
	ival  *big.Int
	hasBV bool // contains bound variables
	size  int
}

type termKind uint8

const (
	kApp   termKind = iota // function application / constant
	kInt                   // integer literal
	kBool                  // true/false
	kBound                 // bound variable
	kQuant                 // forall/exists
)

var termTab = map[string]*Term{}
var termSeq int

func intern(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s", t.kind, t.op, t.sort)
	for _, a := range t.args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	for _, b := range t.bound {
		fmt.Fprintf(&sb, "|b%d", b.id)
	}
	for _, p := range t.pat {
		sb.WriteString("|p")
		for _, q := range p {
			fmt.Fprintf(&sb, ",%d", q.id)
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	t.size = 1
	for _, a := range t.args {
		if a.hasBV {
			t.hasBV = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if t.kind == kBound {
		t.hasBV = true
	}
	if t.kind == kQuant {
		// may still contain outer bound vars; conservative
		t.hasBV = quantHasFree(t)
	}
	termTab[k] = t
	return t
}

func quantHasFree(t *Term) bool {
	bs := map[*Term]bool{}
	return hasFreeBound(t, bs)
}

func hasFreeBound(t *Term, bs map[*Term]bool) bool {
	if !t.hasBV && t.kind != kQuant {
		return false
	}
	if t.kind == kBound {
		return !bs[t]
	}
	if t.kind == kQuant {
		nb := map[*Term]bool{}
		for k := range bs {
			nb[k] = true
		}
		for _, b := range t.bound {
			nb[b] = true
		}
		bs = nb
	}
	for _, a := range t.args {
		if hasFreeBound(a, bs) {
			return true
		}
	}
	return false
}

func mk(op, sort string, args ...*Term) *Term {
	return intern(&Term{op: op, sort: sort, args: args})
}

func Const(name, sort string) *Term { return mk(name, sort) }

func Int(v int64) *Term { return BigI(big.NewInt(v)) }

func BigI(v *big.Int) *Term {
	t := &Term{kind: kInt, op: v.String(), sort: "Int", ival: new(big.Int).Set(v)}
	return intern(t)
}

var True = intern(&Term{kind: kBool, op: "true", sort: "Bool"})
var False = intern(&Term{kind: kBool, op: "false", sort: "Bool"})

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func BoundVar(name, sort string) *Term { return intern(&Term{kind: kBound, op: name, sort: sort}) }

func (t *Term) isInt() bool { return t.kind == kInt }
func (t *Term) String() string {
	return t.smt()
}

func (t *Term) smt() string {
	switch t.kind {
	case kInt:
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.op
	case kQuant:
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			sb.WriteString("(" + qsym(b.op) + " " + rawSort(b.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pat) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(t.args[0].smt())
		for _, p := range t.pat {
			sb.WriteString(" :pattern (")
			for i, q := range p {
				if i > 0 {
					sb.WriteString(" ")
				}
				sb.WriteString(q.smt())
			}
			sb.WriteString(")")
		}
		if len(t.pat) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	if len(t.args) == 0 {
		return qsym(t.op)
	}
	var sb strings.Builder
	pre, post, arg := opText(t)
	sb.WriteString(pre)
	for _, a := range t.args {
		sb.WriteString(" ")
		if arg != nil {
			sb.WriteString(arg(a.smt()))
			continue
		}
		sb.WriteString(a.smt())
	}
	sb.WriteString(post)
	return sb.String()
}

func qsym(s string) string {
	if strings.HasPrefix(s, "(") {
		return s
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			continue
		}
		if strings.IndexByte("~!@$%^&*_-+=<>.?/", c) >= 0 {
			continue
		}
		return "|" + s + "|"
	}
	return s
}

// ---------- boolean constructors ----------

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not" && len(a.args) == 1:
		return a.args[0]
	case a.op == "<=" && a.args[0].sort == "Int":
		return Lt(a.args[1], a.args[0])
	case a.op == "<" && a.args[0].sort == "Int":
		return Le(a.args[1], a.args[0])
	}
	return mk("not", "Bool", a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False {
			return false
		}
		if t.op == "and" && t.kind == kApp {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0]] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == False || seen[t] {
			continue
		}
		if t == True {
			return True
		}
		if t.op == "or" && t.kind == kApp {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if seen[Not(t)] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return Not(c)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	return mk("ite", a.sort, c, a, b)
}

func isCtor(t *Term) bool {
	_, ok := ctorOf[t.op]
	return ok && t.kind == kApp
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.kind == kInt && b.kind == kInt {
		return Bool(a.ival.Cmp(b.ival) == 0)
	}
	if a.sort == "Bool" {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if strings.HasPrefix(a.sort, "(Seq ") {
		// compare literal unit sequences
		ua, oka := unitList(a)
		ub, okb := unitList(b)
		if oka && okb {
			if len(ua) != len(ub) {
				return False
			}
			var cs []*Term
			for i := range ua {
				cs = append(cs, Eq(ua[i], ub[i]))
			}
			return And(cs...)
		}
		// s == literal of n units  ==> len(s)==n && nth..: leave to solver
	}
	if a.sort == "Int" {
		// x + c == d  -> x == d-c
		if la, ca := splitConst(a); la != nil {
			if lb, cb := splitConst(b); lb != nil && la == lb {
				return Bool(ca.Cmp(cb) == 0)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "Bool", a, b)
}

func unitList(t *Term) ([]*Term, bool) {
	switch {
	case t.op == "seq.unit":
		return t.args, true
	case strings.HasPrefix(t.op, "(as seq.empty"):
		return nil, true
	case t.op == "seq.++":
		var out []*Term
		for _, a := range t.args {
			u, ok := unitList(a)
			if !ok {
				return nil, false
			}
			out = append(out, u...)
		}
		return out, true
	}
	return nil, false
}

// ---------- integer constructors (linear normal form) ----------

type lin struct {
	c  *big.Int
	ts map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}

func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.kind == kInt:
		l.c.Add(l.c, new(big.Int).Mul(k, t.ival))
	case t.op == "+" && t.kind == kApp:
		for _, a := range t.args {
			l.add(a, k)
		}
	case t.op == "-" && t.kind == kApp && len(t.args) == 2:
		l.add(t.args[0], k)
		l.add(t.args[1], new(big.Int).Neg(k))
	case t.op == "-" && t.kind == kApp && len(t.args) == 1:
		l.add(t.args[0], new(big.Int).Neg(k))
	case t.op == "*" && t.kind == kApp && len(t.args) == 2 && t.args[0].kind == kInt:
		l.add(t.args[1], new(big.Int).Mul(k, t.args[0].ival))
	default:
		if o, ok := l.ts[t]; ok {
			o.Add(o, k)
			if o.Sign() == 0 {
				delete(l.ts, t)
			}
		} else {
			l.ts[t] = new(big.Int).Set(k)
		}
	}
}

func (l lin) term() *Term {
	var ks []*Term
	for t := range l.ts {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var out []*Term
	for _, t := range ks {
		k := l.ts[t]
		if k.Cmp(bigOne) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", "Int", BigI(k), t))
		}
	}
	if len(out) == 0 {
		return BigI(l.c)
	}
	if l.c.Sign() != 0 {
		out = append(out, BigI(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", "Int", out...)
}

var bigOne = big.NewInt(1)

func splitConst(t *Term) (*Term, *big.Int) {
	l := linOf(t)
	c := new(big.Int).Set(l.c)
	l.c = new(big.Int)
	return l.term(), c
}

func Add(ts ...*Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, t := range ts {
		l.add(t, bigOne)
	}
	return l.term()
}

func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}

func Neg(a *Term) *Term { return Sub(Int(0), a) }

func Mul(a, b *Term) *Term {
	if a.kind == kInt {
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		l.add(b, a.ival)
		return l.term()
	}
	if b.kind == kInt {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "Int", a, b)
}

// Div and Mod are SMT (Euclidean) for positive divisors = floor.
func Div(a, b *Term) *Term {
	if a.kind == kInt && b.kind == kInt && b.ival.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return BigI(q)
	}
	if b.kind == kInt && b.ival.Cmp(bigOne) == 0 {
		return a
	}
	if a.kind == kInt && a.ival.Sign() == 0 {
		return a
	}
	return mk("div", "Int", a, b)
}

func Mod(a, b *Term) *Term {
	if a.kind == kInt && b.kind == kInt && b.ival.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return BigI(m)
	}
	if b.kind == kInt && b.ival.Cmp(bigOne) == 0 {
		return Int(0)
	}
	return mk("mod", "Int", a, b)
}

func cmpLin(a, b *Term) (*big.Int, bool) {
	d := Sub(a, b)
	if d.kind == kInt {
		return d.ival, true
	}
	return nil, false
}

func Le(a, b *Term) *Term {
	if d, ok := cmpLin(a, b); ok {
		return Bool(d.Sign() <= 0)
	}
	if a.kind == kInt && a.ival.Sign() <= 0 && nonNeg(b) {
		return True
	}
	if b.kind == kInt {
		if h := upper(a); h != nil && h.Cmp(b.ival) <= 0 {
			return True
		}
	}
	return mk("<=", "Bool", a, b)
}

func Lt(a, b *Term) *Term {
	if d, ok := cmpLin(a, b); ok {
		return Bool(d.Sign() < 0)
	}
	if b.kind == kInt && b.ival.Sign() <= 0 && nonNeg(a) {
		return False
	}
	if b.kind == kInt {
		if h := upper(a); h != nil && h.Cmp(b.ival) < 0 {
			return True
		}
	}
	return mk("<", "Bool", a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// nonNeg is a cheap syntactic test.
func nonNeg(t *Term) bool {
	switch {
	case t.kind == kInt:
		return t.ival.Sign() >= 0
	case t.op == "seq.len":
		return true
	case t.op == "mod":
		return true
	case t.op == "div" && t.args[1].kind == kInt && t.args[1].ival.Sign() > 0:
		return nonNeg(t.args[0])
	case t.op == "+":
		for _, a := range t.args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	case t.op == "*":
		for _, a := range t.args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	case t.op == "ite":
		return nonNeg(t.args[1]) && nonNeg(t.args[2])
	}
	return false
}

func upper(t *Term) *big.Int {
	switch {
	case t.kind == kInt:
		return t.ival
	case t.op == "mod" && t.args[1].kind == kInt && t.args[1].ival.Sign() > 0:
		return new(big.Int).Sub(t.args[1].ival, bigOne)
	}
	return nil
}

// ---------- sequences ----------

func seqElemSort(s string) string {
	if !strings.HasPrefix(s, "(Seq ") {
		panic("not a seq sort: " + s)
	}
	return s[5 : len(s)-1]
}
func SeqSort(e string) string { return "(Seq " + e + ")" }
func SeqEmpty(elem string) *Term {
	return mk("(as seq.empty "+rawSort(SeqSort(elem))+")", SeqSort(elem))
}
func SeqUnit(t *Term) *Term { return mk("seq.unit", SeqSort(t.sort), t) }
func isEmptySeq(t *Term) bool {
	return strings.HasPrefix(t.op, "(as seq.empty")
}
func SeqCat(ts ...*Term) *Term {
	var out []*Term
	srt := ""
	for _, t := range ts {
		srt = t.sort
		if isEmptySeq(t) {
			continue
		}
		if t.op == "seq.++" {
			for _, x := range t.args {
				out = catPush(out, x)
			}
			continue
		}
		out = catPush(out, t)
	}
	if len(out) == 0 {
		return SeqEmpty(seqElemSort(srt))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("seq.++", srt, out...)
}

func catPush(out []*Term, t *Term) []*Term {
	return append(out, t)
}

func SeqLen(t *Term) *Term {
	switch {
	case t.op == "seq.unit":
		return Int(1)
	case isEmptySeq(t):
		return Int(0)
	case t.op == "seq.++":
		var l []*Term
		for _, a := range t.args {
			l = append(l, SeqLen(a))
		}
		return Add(l...)
	case strings.HasPrefix(t.op, "seq.repeat<"):
		return t.args[1] // n >= 0 wherever the term is built
	case t.op == "ite":
		a, b := SeqLen(t.args[1]), SeqLen(t.args[2])
		if a == b {
			return a
		}
	}
	return mk("seq.len", "Int", t)
}

// SeqNth: element at index i (assumed in range).
func SeqNth(s, i *Term) *Term {
	es := seqElemSort(s.sort)
	if i.kind == kInt {
		// walk prefix of known lengths
		if s.op == "seq.unit" && i.ival.Sign() == 0 {
			return s.args[0]
		}
		if s.op == "seq.++" {
			off := new(big.Int).Set(i.ival)
			for k, a := range s.args {
				l := SeqLen(a)
				if l.kind != kInt {
					if k > 0 {
						rest := SeqCat(s.args[k:]...)
						return SeqNth(rest, BigI(off))
					}
					break
				}
				if off.Cmp(l.ival) < 0 {
					return SeqNth(a, BigI(off))
				}
				off.Sub(off, l.ival)
			}
		}
	} else if s.op == "seq.++" {
		// exact prefix-length match: nth(a ++ unit(x) ++ .., len(a)) = x
		var pre []*Term
		for k, a := range s.args {
			if k > 0 {
				pl := Add(pre...)
				d := Sub(i, pl)
				if d.kind == kInt {
					if d.ival.Sign() >= 0 {
						return SeqNth(SeqCat(s.args[k:]...), d)
					}
				}
			}
			pre = append(pre, SeqLen(a))
		}
	}
	if s.op == "ite" {
		a, b := SeqNth(s.args[1], i), SeqNth(s.args[2], i)
		return Ite(s.args[0], a, b)
	}
	return mk("seq.nth", es, s, i)
}

// SeqSub: s[i:j], assumed 0<=i<=j<=len(s).
func SeqSub(s, i, j *Term) *Term {
	n := Sub(j, i)
	if n.kind == kInt && n.ival.Sign() == 0 {
		return SeqEmpty(seqElemSort(s.sort))
	}
	if i.kind == kInt && i.ival.Sign() == 0 && j == SeqLen(s) {
		return s
	}
	if s.op == "seq.++" {
		// drop known prefix
		for k := 0; k < len(s.args); k++ {
			l := SeqLen(s.args[k])
			d := Sub(i, l)
			if d.kind == kInt && d.ival.Sign() >= 0 {
				i = d
				j = Sub(j, l)
				if k+1 == len(s.args) {
					return SeqEmpty(seqElemSort(s.sort))
				}
				rest := SeqCat(s.args[k+1:]...)
				return SeqSub(rest, i, j)
			}
			// keep: whole first element when i==0 and j>=l
			if i.kind == kInt && i.ival.Sign() == 0 {
				dj := Sub(j, l)
				if dj.kind == kInt && dj.ival.Sign() >= 0 || (dj.kind != kInt && nonNegSum(dj)) {
					if k+1 == len(s.args) {
						return s.args[k]
					}
					rest := SeqCat(s.args[k+1:]...)
					return SeqCat(s.args[k], SeqSub(rest, Int(0), dj))
				}
			}
			break
		}
	}
	if strings.HasPrefix(s.op, "seq.repeat<") {
		return SeqRepeat(s.args[0], n)
	}
	if s.op == "seq.extract" {
		// (s0[a:a+m])[i:j] -> s0[a+i:a+j]   (valid under the bounds assumption)
		return SeqSub(s.args[0], Add(s.args[1], i), Add(s.args[1], j))
	}
	return mk("seq.extract", s.sort, s, i, n)
}

func nonNegSum(t *Term) bool {
	l := linOf(t)
	if l.c.Sign() < 0 {
		return false
	}
	for x, k := range l.ts {
		if k.Sign() < 0 || !nonNeg(x) {
			return false
		}
	}
	return true
}

// SeqRepeat: n copies of v.
func SeqRepeat(v, n *Term) *Term {
	if n.kind == kInt && n.ival.Cmp(big.NewInt(64)) <= 0 {
		us := []*Term{SeqEmpty(v.sort)}
		for i := int64(0); i < n.ival.Int64(); i++ {
			us = append(us, SeqUnit(v))
		}
		return SeqCat(us...)
	}
	return mk("seq.repeat<"+v.sort+">", SeqSort(v.sort), v, n)
}

func SeqUpdate(s, i, v *Term) *Term {
	n := SeqLen(s)
	return SeqCat(SeqSub(s, Int(0), i), SeqUnit(v), SeqSub(s, Add(i, Int(1)), n))
}

// ---------- arrays ----------

func Select(a, i *Term) *Term {
	for a.op == "store" {
		e := Eq(a.args[1], i)
		if e == True {
			return a.args[2]
		}
		if e == False {
			a = a.args[0]
			continue
		}
		break
	}
	if strings.HasPrefix(a.op, "(as const") {
		return a.args[0]
	}
	_, v := arraySorts(a.sort)
	return mk("select", v, a, i)
}
func Store(a, i, v *Term) *Term { return mk("store", a.sort, a, i, v) }
func ConstArray(k string, v *Term) *Term {
	s := "(Array " + k + " " + v.sort + ")"
	return mk("(as const "+rawSort(s)+")", s, v)
}
func ArraySort(k, v string) string { return "(Array " + k + " " + v + ")" }
func arraySorts(s string) (string, string) {
	// parse "(Array K V)"
	body := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// ---------- datatypes ----------

type ctorInfo struct {
	name   string
	sort   string
	fields []fieldInfo
}
type fieldInfo struct{ name, sort string }
type dtInfo struct {
	name  string
	ctors []*ctorInfo
}

var dts = map[string]*dtInfo{}
var dtOrder []string
var ctorOf = map[string]*ctorInfo{} // ctor name -> info
var selOf = map[string]struct {
	c   *ctorInfo
	idx int
}{}

func declDT(name string, ctors ...*ctorInfo) {
	d := &dtInfo{name, ctors}
	dts[name] = d
	dtOrder = append(dtOrder, name)
	registerCtors(d)
}
func registerCtors(d *dtInfo) {
	for _, c := range d.ctors {
		c.sort = d.name
		ctorOf[c.name] = c
		for i, f := range c.fields {
			selOf[f.name] = struct {
				c   *ctorInfo
				idx int
			}{c, i}
		}
	}
}

func Ctor(name string, args ...*Term) *Term {
	c := ctorOf[name]
	if c == nil {
		panic("no ctor " + name)
	}
	if len(args) != len(c.fields) {
		panic("ctor arity " + name)
	}
	for i, a := range args {
		if a.sort != c.fields[i].sort {
			panic(fmt.Sprintf("ctor %s field %s: sort %s, want %s", name, c.fields[i].name, a.sort, c.fields[i].sort))
		}
	}
	// eta: mk(sel0(x), sel1(x), ...) = x when single ctor
	if len(args) > 0 && len(dts[c.sort].ctors) == 1 {
		var base *Term
		ok := true
		for i, a := range args {
			if a.op != c.fields[i].name || len(a.args) != 1 {
				ok = false
				break
			}
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				ok = false
				break
			}
		}
		if ok && base != nil && base.sort == c.sort {
			return base
		}
	}
	return mk(name, c.sort, args...)
}

func Sel(name string, t *Term) *Term {
	s, ok := selOf[name]
	if !ok {
		panic("no selector " + name)
	}
	if t.op == s.c.name && t.kind == kApp {
		return t.args[s.idx]
	}
	if t.op == "ite" && t.kind == kApp {
		return Ite(t.args[0], Sel(name, t.args[1]), Sel(name, t.args[2]))
	}
	if t.sort != s.c.sort {
		panic(fmt.Sprintf("selector %s applied to sort %s (want %s): %s", name, t.sort, s.c.sort, t))
	}
	return mk(name, s.c.fields[s.idx].sort, t)
}

func Is(ctor string, t *Term) *Term {
	c := ctorOf[ctor]
	if c == nil {
		panic("no ctor " + ctor)
	}
	if isCtor(t) {
		return Bool(t.op == ctor)
	}
	if len(dts[c.sort].ctors) == 1 {
		return True
	}
	if t.op == "ite" && t.kind == kApp {
		return Ite(t.args[0], Is(ctor, t.args[1]), Is(ctor, t.args[2]))
	}
	return mk("(_ is "+qsym(ctor)+")", "Bool", t)
}

func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	return intern(&Term{kind: kQuant, op: "forall", sort: "Bool", bound: bound, args: []*Term{body}, pat: pats})
}
func Exists(bound []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	return intern(&Term{kind: kQuant, op: "exists", sort: "Bool", bound: bound, args: []*Term{body}})
}

// rebuild applies the simplifying constructors for op.
func rebuild(t *Term, args []*Term) *Term {
	switch t.kind {
	case kQuant:
		if t.op == "forall" {
			return Forall(t.bound, args[0], t.pat...)
		}
		return Exists(t.bound, args[0])
	case kInt, kBool, kBound:
		return t
	}
	if len(args) == 0 {
		return t
	}
	return mkApp(t.op, t.sort, args)
}

// mkApp builds an application using simplifying constructors where known.
func mkApp(op, srt string, args []*Term) *Term {
	switch op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		r := args[len(args)-1]
		for i := len(args) - 2; i >= 0; i-- {
			r = Implies(args[i], r)
		}
		return r
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		if len(args) == 2 {
			return Eq(args[0], args[1])
		}
	case "distinct":
		if len(args) == 2 {
			return Not(Eq(args[0], args[1]))
		}
	case "+":
		return Add(args...)
	case "-":
		if len(args) == 1 {
			return Neg(args[0])
		}
		r := args[0]
		for _, a := range args[1:] {
			r = Sub(r, a)
		}
		return r
	case "*":
		r := args[0]
		for _, a := range args[1:] {
			r = Mul(r, a)
		}
		return r
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "<=", "<", ">=", ">":
		var cs []*Term
		for i := 0; i+1 < len(args); i++ {
			a, b := args[i], args[i+1]
			switch op {
			case "<=":
				cs = append(cs, Le(a, b))
			case "<":
				cs = append(cs, Lt(a, b))
			case ">=":
				cs = append(cs, Ge(a, b))
			case ">":
				cs = append(cs, Gt(a, b))
			}
		}
		return And(cs...)
	case "seq.len":
		return SeqLen(args[0])
	case "seq.nth":
		return SeqNth(args[0], args[1])
	case "seq.++":
		return SeqCat(args...)
	case "seq.unit":
		return SeqUnit(args[0])
	case "seq.extract":
		// terms built by SeqSub keep its bounds discipline under substitution
		return SeqSub(args[0], args[1], Add(args[1], args[2]))
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	if strings.HasPrefix(op, "(_ is ") {
		return Is(strings.Trim(op[6:len(op)-1], "|"), args[0])
	}
	if _, ok := selOf[op]; ok && len(args) == 1 {
		return Sel(op, args[0])
	}
	if c, ok := ctorOf[op]; ok && len(args) == len(c.fields) {
		return Ctor(op, args...)
	}
	return mk(op, srt, args...)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch || (t.kind == kQuant && len(t.pat) > 0) {
			if t.kind == kQuant {
				np := make([][]*Term, len(t.pat))
				for i, p := range t.pat {
					for _, q := range p {
						np[i] = append(np[i], f(q))
					}
				}
				nt := &Term{kind: kQuant, op: t.op, sort: "Bool", bound: t.bound, args: args, pat: np}
				if args[0] == True || args[0] == False {
					r = args[0]
				} else {
					r = intern(nt)
				}
			} else {
				r = rebuild(t, args)
			}
		}
		cache[t] = r
		return r
	}
	return f(t)
}

var freshN = map[string]int{}

func Fresh(prefix, sort string) *Term {
	freshN[prefix]++
	freshSerial++
	t := Const(fmt.Sprintf("%s!%d", prefix, freshN[prefix]), sort)
	freshAt[t] = freshSerial
	return t
}

var freshSerial int
var freshAt = map[*Term]int{}

// newerThan: does the term mention a constant created after the given moment?
func newerThan(t *Term, serial int) bool {
	if freshAt[t] > serial {
		return true
	}
	for _, a := range t.args {
		if newerThan(a, serial) {
			return true
		}
	}
	return false
}
