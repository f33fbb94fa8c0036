package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the program under verification, with its contracts.
type Prog struct {
	fset  *token.FileSet
	repo  map[string]bool
	sp    *Specs
	prog  *ssa.Program
	pkgs  []*packages.Package
	spkgs []*ssa.Package
	byPkg map[string]*types.Package // by package name, repo and direct imports
	funcs map[string]*ssa.Function
	mu    sync.Mutex
	loops map[*ssa.Function]*loopInfo
	used  map[*ssa.Function]string // renamed functions matched to a contract
}

// LoadProg loads and builds every package of the repository.
func LoadProg(dir string, sp *Specs) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%v", p.Errors[0])
		}
	}
	prog, spk := ssautil.Packages(pk, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, pkgs: pk, repo: map[string]bool{}, sp: sp, byPkg: map[string]*types.Package{},
		funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function]*loopInfo{}, used: map[*ssa.Function]string{}}
	for i, q := range pk {
		p.fset = q.Fset
		p.repo[q.PkgPath] = true
		if spk[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", q.PkgPath)
		}
		spk[i].Build()
		p.spkgs = append(p.spkgs, spk[i])
	}
	for _, q := range pk {
		for _, im := range q.Types.Imports() {
			if p.byPkg[im.Name()] == nil || strings.Contains(im.Path(), "juju") {
				p.byPkg[im.Name()] = im
			}
		}
	}
	for _, q := range pk {
		p.byPkg[q.Types.Name()] = q.Types
	}
	for i, q := range pk {
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				o, _ := q.TypesInfo.Defs[fd.Name].(*types.Func)
				if o == nil {
					continue
				}
				if fn := prog.FuncValue(o); fn != nil && len(fn.Blocks) > 0 {
					p.funcs[objKey(o)] = fn
				}
			}
		}
		_ = spk[i]
	}
	return p, nil
}

// findFunc resolves the function a contract is about. A function that is gone
// is looked up by its signature among the functions without a contract.
func (p *Prog) findFunc(f *FuncSpec) (*ssa.Function, string) {
	if fn := p.funcs[f.Key]; fn != nil {
		return fn, ""
	}
	parts := strings.Split(f.Key, ".")
	prefix := strings.Join(parts[:len(parts)-1], ".") + "."
	var found *ssa.Function
	for k, fn := range p.funcs {
		if !strings.HasPrefix(k, prefix) || strings.Contains(k[len(prefix):], ".") || p.sp.Funcs["func:"+k] != nil {
			continue
		}
		if len(fn.Params) != len(f.Params) || fn.Signature.Results().Len() != len(f.Results) {
			continue
		}
		same := true
		start := 0
		if fn.Signature.Recv() != nil {
			start = 1
		}
		for i := start; i < len(fn.Params); i++ {
			if fn.Params[i].Name() != f.Params[i] && fn.Params[i].Name() != "_" {
				same = false
			}
		}
		if !same || len(f.Params) <= start {
			continue
		}
		if found != nil {
			return nil, "ambiguous"
		}
		found = fn
	}
	if found != nil {
		p.mu.Lock()
		p.used[found] = f.Key
		p.mu.Unlock()
		return found, ""
	}
	return nil, "no such function"
}

// specOf returns the contract of a function of the repository.
func (p *Prog) specOf(fn *ssa.Function) *FuncSpec {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if f := p.sp.Funcs["func:"+funcKey(fn)]; f != nil {
		return f
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if k, ok := p.used[fn]; ok {
		return p.sp.Funcs["func:"+k]
	}
	return nil
}

func (p *Prog) lookupType(name, pkg string) types.Type {
	switch {
	case strings.HasPrefix(name, "*"):
		if t := p.lookupType(name[1:], pkg); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(name, "[]"):
		if t := p.lookupType(name[2:], pkg); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(name, "map[string]"):
		if t := p.lookupType(name[11:], pkg); t != nil {
			return types.NewMap(types.Typ[types.String], t)
		}
		return nil
	case name == "string":
		return types.Typ[types.String]
	case name == "int":
		return types.Typ[types.Int]
	case name == "int32":
		return types.Typ[types.Int32]
	case name == "bool":
		return types.Typ[types.Bool]
	case name == "error":
		return types.Universe.Lookup("error").Type()
	case name == "any", name == "interface{}":
		return types.NewInterfaceType(nil, nil)
	case strings.HasPrefix(name, "chan "), strings.HasPrefix(name, "func("):
		tv, err := types.Eval(p.fset, p.byPkg[pkg], token.NoPos, name)
		if err == nil {
			return tv.Type
		}
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		pkg, name = name[:i], name[i+1:]
	}
	tp := p.byPkg[pkg]
	if tp == nil {
		return nil
	}
	if o, ok := tp.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// constant resolves a package-level constant or variable.
func (p *Prog) constant(name, pkg string) (func(*Exec) SV, bool) {
	if i := strings.Index(name, "."); i >= 0 {
		pkg, name = name[:i], name[i+1:]
	}
	tp := p.byPkg[pkg]
	if tp == nil {
		return nil, false
	}
	switch o := tp.Scope().Lookup(name).(type) {
	case *types.Const:
		return func(x *Exec) SV {
			u := x.u
			switch x.te.sortOf(o.Type()) {
			case SInt:
				n, _ := new(big.Int).SetString(constant.ToInt(o.Val()).ExactString(), 10)
				return SV{t: u.BigInt(n), typ: o.Type()}
			case SStr:
				return SV{t: u.Str(constant.StringVal(o.Val())), typ: o.Type()}
			case SBool:
				return SV{t: u.Bool(constant.BoolVal(o.Val())), typ: o.Type()}
			}
			panic(specError{"constant " + name})
		}, true
	case *types.Var:
		g, _ := p.prog.Package(tp).Members[name].(*ssa.Global)
		if g == nil {
			return nil, false
		}
		return func(x *Exec) SV {
			l := x.globalLoc(g)
			return SV{t: x.loadLoc(x.root, l), typ: o.Type(), loc: l}
		}, true
	}
	return nil, false
}

// ---- loops

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	outer  *loop
}

type loopInfo struct {
	head map[*ssa.BasicBlock]*loop
	all  []*loop
}

type loopKey struct {
	frame int
	head  *ssa.BasicBlock
}

func (p *Prog) loopsOf(fn *ssa.Function) *loopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if li := p.loops[fn]; li != nil {
		return li
	}
	li := &loopInfo{head: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			lp := li.head[h]
			if lp == nil {
				lp = &loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				li.head[h] = lp
				li.all = append(li.all, lp)
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if lp.blocks[n] {
					continue
				}
				lp.blocks[n] = true
				stack = append(stack, n.Preds...)
			}
		}
	}
	sort.Slice(li.all, func(i, j int) bool { return len(li.all[i].blocks) > len(li.all[j].blocks) })
	for i, a := range li.all {
		for j := i - 1; j >= 0; j-- {
			if li.all[j].blocks[a.head] {
				a.outer = li.all[j]
				break
			}
		}
	}
	p.loops[fn] = li
	return li
}

// callees lists the repository functions without a contract that a function
// statically refers to (they are executed in place).
func (p *Prog) fingerprint(fn *ssa.Function) string {
	var b strings.Builder
	fn.WriteTo(&b)
	return b.String()
}
