package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // full path
	tpkgs   map[string]*types.Package
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	assumed map[string]bool // notes on assumptions met during execution
}

var eng *Engine

func loadProgram(repo string, pats []string) error {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	eng = &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, assumed: map[string]bool{}}
	for _, p := range spkgs {
		if p != nil {
			eng.pkgs[p.Pkg.Path()] = p
		}
	}
	var addT func(p *types.Package)
	addT = func(p *types.Package) {
		if eng.tpkgs[p.Path()] != nil {
			return
		}
		eng.tpkgs[p.Path()] = p
		for _, q := range p.Imports() {
			addT(q)
		}
	}
	for _, p := range pkgs {
		addT(p.Types)
	}
	return nil
}

func pkgByShort(s string) *types.Package {
	if p := eng.tpkgs[modPath+"/"+s]; p != nil {
		return p
	}
	return eng.tpkgs[s]
}

// parseType parses "*T", "[]T", "map[K]V" (simple), basic kinds and pkg.Name.
func parseType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		if e := parseType(s[1:]); e != nil {
			return types.NewPointer(e)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if e := parseType(s[2:]); e != nil {
			return types.NewSlice(e)
		}
		return nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					k, v := parseType(s[4:i]), parseType(s[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
		return nil
	case s == "error":
		return types.Universe.Lookup("error").Type()
	case s == "interface{}" || s == "any":
		return types.NewInterfaceType(nil, nil)
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	k := strings.LastIndexByte(s, '.')
	if k < 0 {
		return nil
	}
	p := pkgByShort(s[:k])
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(s[k+1:])
	if o == nil {
		return nil
	}
	return o.Type()
}

func mustType(s string) types.Type {
	t := parseType(s)
	if t == nil {
		panic("unknown Go type " + s)
	}
	return t
}

func pkgShort(p *types.Package) string { return strings.TrimPrefix(p.Path(), modPath+"/") }

func fnKey(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		return "(" + shortType(fn.Signature.Recv().Type()) + ")." + fn.Name()
	}
	if fn.Pkg != nil {
		return pkgShort(fn.Pkg.Pkg) + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return pkgShort(fn.Object().Pkg()) + "." + fn.Name()
	}
	return fn.String()
}

func inModule(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

// findFunc resolves a contract key to an SSA function.
func findFunc(key string) *ssa.Function {
	if strings.HasPrefix(key, "(") {
		k := strings.LastIndex(key, ").")
		t := parseType(key[1:k])
		if t == nil {
			return nil
		}
		name := key[k+2:]
		ms := eng.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := eng.prog.MethodValue(ms.At(i))
				if f == nil {
					return nil
				}
				return f
			}
		}
		return nil
	}
	k := strings.LastIndexByte(key, '.')
	p := pkgByShort(key[:k])
	if p == nil {
		return nil
	}
	sp := eng.prog.Package(p)
	if sp == nil {
		return nil
	}
	return sp.Func(key[k+1:])
}

// ---------- loops ----------

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := eng.loops[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := out[h]
				if l == nil {
					l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					out[h] = l
				}
				// blocks reaching b without h
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	eng.loops[fn] = out
	return out
}

func (e *Engine) note(s string) { e.assumed[s] = true }

func (e *Engine) notes() []string {
	var out []string
	for k := range e.assumed {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
