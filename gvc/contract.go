package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Label string
	Src   string
	E     ast.Expr
	Props []string
	line  int
}

type LoopTmpl struct {
	Vars []tmplVar
	E    ast.Expr
	Src  string
}
type tmplVar struct{ Name, Type string }

type Contract struct {
	Func     string // e.g. common/intconv.Int64ToBytes, (*common/mbt.node).proof
	Params   []string
	Results  []string
	Requires []*Clause
	Domain   []*Clause // restricts what is verified: ensures hold for inputs in the domain
	Ensures  []*Clause
	Loops    []*LoopTmpl
	Modifies []string
	Hints    []*Clause // terms to seed ground instantiation at exit
	Lets     []*Clause
	Arith    string // "math" (default) or "exact"
	PanicsOK bool
	Extern   bool   // assumed, not verified
	By       string // discharged by the check of this property
	Iface    bool
	Optional bool // tolerated when missing
	Inline   bool // no contract: always inline (documentation)
	Opaque   bool
	NoRet    bool
	Props    []string
	Fuel     int
	Unroll   int
	File     string
	Line     int
	Note     string
	Reveal   []string
	Alias    map[string]string
	Pre      bool
	GhostMod []string
	Ghosts   []string
	MaxPaths int
	Timeout  int
}

var contracts = map[string]*Contract{}
var contractList []*Contract

var reHead = regexp.MustCompile(`^(func|extern|method)\s+(.+?)\s*\(([^()]*)\)\s*(?:\(([^()]*)\))?\s*$`)
var reLabel = regexp.MustCompile(`^\[([A-Za-z0-9_\-.]+)\]\s*(.*)$`)
var reLoop = regexp.MustCompile(`^\(([^()]*)\)\s*(.*)$`)

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func loadContracts(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var cur *Contract
	var fileProps []string
	lines := strings.Split(string(b), "\n")
	for i := 0; i < len(lines); i++ {
		ln := i + 1
		raw := lines[i]
		if k := strings.Index(raw, "//"); k >= 0 {
			raw = raw[:k]
		}
		if strings.TrimSpace(raw) == "" {
			continue
		}
		// continuation: following lines with deeper indentation ("    " 4+)
		for i+1 < len(lines) {
			nx := lines[i+1]
			if k := strings.Index(nx, "//"); k >= 0 {
				nx = nx[:k]
			}
			if strings.HasPrefix(nx, "      ") && strings.TrimSpace(nx) != "" {
				raw += " " + strings.TrimSpace(nx)
				i++
				continue
			}
			break
		}
		indented := raw[0] == ' ' || raw[0] == '\t'
		t := strings.TrimSpace(raw)
		if !indented {
			if strings.HasPrefix(t, "property ") {
				fileProps = splitNames(t[9:])
				continue
			}
			if strings.HasPrefix(t, "ignore ") { // a field that is not modelled
				for _, n := range splitNames(t[7:]) {
					ignoredFields[n] = true
				}
				continue
			}
			m := reHead.FindStringSubmatch(t)
			if m == nil {
				return fmt.Errorf("%s:%d: bad header %q", file, ln, t)
			}
			cur = &Contract{Func: m[2], Params: splitNames(m[3]), Results: splitNames(m[4]), Extern: m[1] == "extern", File: file, Line: ln, Props: fileProps, Fuel: 2}
			if m[1] == "method" {
				cur.Iface = true
				cur.Extern = true
			}
			if contracts[cur.Func] != nil {
				return fmt.Errorf("%s:%d: duplicate contract for %s", file, ln, cur.Func)
			}
			contracts[cur.Func] = cur
			contractList = append(contractList, cur)
			continue
		}
		if cur == nil {
			return fmt.Errorf("%s:%d: clause outside function", file, ln)
		}
		kw, rest := t, ""
		if k := strings.IndexAny(t, " \t"); k > 0 {
			kw, rest = t[:k], strings.TrimSpace(t[k:])
		}
		mkc := func() (*Clause, error) {
			c := &Clause{Src: rest, line: ln, Props: cur.Props}
			if m := reLabel.FindStringSubmatch(rest); m != nil {
				c.Label = m[1]
				c.Src = m[2]
			}
			e, err := parseSpec(c.Src)
			if err != nil {
				return nil, fmt.Errorf("%s:%d: %v in %q", file, ln, err, c.Src)
			}
			c.E = e
			return c, nil
		}
		switch kw {
		case "requires":
			c, err := mkc()
			if err != nil {
				return err
			}
			cur.Requires = append(cur.Requires, c)
		case "domain":
			c, err := mkc()
			if err != nil {
				return err
			}
			cur.Domain = append(cur.Domain, c)
		case "ensures":
			c, err := mkc()
			if err != nil {
				return err
			}
			if c.Label == "" {
				c.Label = fmt.Sprintf("e%d", len(cur.Ensures)+1)
			}
			cur.Ensures = append(cur.Ensures, c)
		case "hint":
			c, err := mkc()
			if err != nil {
				return err
			}
			cur.Hints = append(cur.Hints, c)
		case "let":
			k := strings.Index(rest, "=")
			c := &Clause{Label: strings.TrimSpace(rest[:k]), Src: rest[k+1:], line: ln}
			e, err := parseSpec(c.Src)
			if err != nil {
				return fmt.Errorf("%s:%d: %v", file, ln, err)
			}
			c.E = e
			cur.Lets = append(cur.Lets, c)
		case "loop":
			m := reLoop.FindStringSubmatch(rest)
			if m == nil {
				return fmt.Errorf("%s:%d: bad loop template", file, ln)
			}
			lt := &LoopTmpl{Src: m[2]}
			for _, v := range splitNames(m[1]) {
				f := strings.SplitN(v, " ", 2)
				lt.Vars = append(lt.Vars, tmplVar{f[0], strings.TrimSpace(f[1])})
			}
			e, err := parseSpec(m[2])
			if err != nil {
				return fmt.Errorf("%s:%d: %v in %q", file, ln, err, m[2])
			}
			lt.E = e
			cur.Loops = append(cur.Loops, lt)
		case "modifies":
			cur.Modifies = append(cur.Modifies, splitNames(strings.ReplaceAll(rest, "*", ""))...)
		case "arith":
			cur.Arith = rest
		case "panics":
			cur.PanicsOK = rest == "allowed"
		case "optional":
			cur.Optional = true
		case "noreturn":
			cur.NoRet = true
		case "property":
			cur.Props = splitNames(rest)
		case "fuel":
			fmt.Sscan(rest, &cur.Fuel)
		case "unroll":
			fmt.Sscan(rest, &cur.Unroll)
		case "maxpaths":
			fmt.Sscan(rest, &cur.MaxPaths)
		case "timeout":
			fmt.Sscan(rest, &cur.Timeout)
		case "note":
			cur.Note = rest
		case "alias":
			fs := strings.Fields(rest)
			if cur.Alias == nil {
				cur.Alias = map[string]string{}
			}
			cur.Alias[fs[0]] = fs[1]
		case "ghost":
			cur.Ghosts = append(cur.Ghosts, splitNames(rest)...)
		default:
			return fmt.Errorf("%s:%d: unknown clause %q", file, ln, kw)
		}
	}
	return nil
}

// ignoredFields: pkg.Type.Field; stores to it are dropped, reading it is refused.
var ignoredFields = map[string]bool{}

func ignoredField(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || len(ignoredFields) == 0 {
		return false
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	st, ok := t.Underlying().(*types.Struct)
	nt, ok2 := t.(*types.Named)
	if !ok || !ok2 || nt.Obj().Pkg() == nil {
		return false
	}
	n := pkgShort(nt.Obj().Pkg()) + "." + nt.Obj().Name() + "." + st.Field(fa.Field).Name()
	if ignoredFields[n] {
		eng.note("field " + n + " is not modelled: what is stored in it is dropped, and no code under contract reads it")
		return true
	}
	return false
}
