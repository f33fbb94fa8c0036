package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome is how a call ends.
type Outcome struct {
	kind int
	vals []Val
	pv   *Term // panic value
}

const (
	oReturn = iota
	oPanic
	oExit
)

type Cont func(*State, Outcome)

// Frame is one activation of a function.
type Frame struct {
	id     int
	fn     *ssa.Function
	caller *Frame
	loops  *loopInfo
	depth  int
}

// Obl is a proof obligation.
type Obl struct {
	Fn    string
	Label string
	Kind  string
	Tags  []string
	Pos   string
	pc    []*Term
	goal  *Term
	trace []string
	err   string
	// results
	OK      bool
	Trivial bool
	Backend string
	Millis  int64
	Script  string
	Untried bool   // left out after other failures of the function
	Cross   string // a second solver that agrees
	helper  string
	opt     bool
}

// Exec verifies one function.
type Exec struct {
	noOpt      bool // without optional invariants
	p          *Prog
	u          *Universe
	te         *TypeEnv
	sol        *Solver
	spec       *FuncSpec
	fn         *ssa.Function
	name       string
	prop       string
	dropped    map[string]bool
	trial      int
	disc       int
	covered    map[*ssa.BasicBlock]bool
	candMemo   map[string]map[string]bool
	obls       []*Obl
	notes      map[string]bool
	skipped    map[string]bool
	used       map[string]bool // contracts relied upon
	inlined    map[string]bool
	frames     int
	freshSeq   int
	iters      int
	prov       map[*Term]*Prov
	locOf      map[*Term]*Loc
	clos       map[*Term]*Clo
	regSorts   map[string]Sort
	baseDone   map[string]bool
	boxTag     map[string]*Term
	clock0     *Term
	paths      int
	accs       []*Access
	defTags    []string
	root       *State // entry state
	rootCtx    *Ctx
	deadline   time.Time
	modMemo    map[*ssa.BasicBlock]map[string]bool
	extraMod   map[*ssa.BasicBlock]map[string]bool // found out by an earlier attempt
	feasMemo   map[string]bool
	steps      int
	eventSeen  bool
	reached    int
	havocOf    map[*Term]*havocInfo
	localVal   map[*Term]ssa.Value
	loopInvs   map[string]bool
	boxedType  map[string]types.Type
	curListens []listen
	nq         int
	unmerged   bool // explore every path on its own
	joins      map[joinKey]*joiner
	pdoms      map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	polling    bool // in a select with a default
}

func NewExec(p *Prog, spec *FuncSpec, fn *ssa.Function, prop string, dropped map[string]bool) *Exec {
	u := NewUniverse()
	x := &Exec{p: p, u: u, te: NewTypeEnv(u, p.repo), sol: NewZ3(), spec: spec, fn: fn, prop: prop, dropped: dropped,
		notes: map[string]bool{}, skipped: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{},
		prov: map[*Term]*Prov{}, locOf: map[*Term]*Loc{}, clos: map[*Term]*Clo{}, regSorts: map[string]Sort{},
		baseDone: map[string]bool{}, boxTag: map[string]*Term{}, modMemo: map[*ssa.BasicBlock]map[string]bool{},
		feasMemo: map[string]bool{}, covered: map[*ssa.BasicBlock]bool{}, candMemo: map[string]map[string]bool{}, havocOf: map[*Term]*havocInfo{}, localVal: map[*Term]ssa.Value{}, loopInvs: map[string]bool{}, boxedType: map[string]types.Type{}}
	x.joins, x.pdoms = map[joinKey]*joiner{}, map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}
	x.name = spec.Key
	x.clock0 = u.Const("clock0", SInt)
	n := u.Nil(SRef)
	u.Axiom("clock0", u.Cmp(">=", x.clock0, u.Int(0)))
	r := u.BoundVar("r", SRef)
	_ = r
	u.Axiom("birth", u.Cmp("<=", u.App("birth", SInt, n), u.Int(0)))
	return x
}

func (x *Exec) wanted(tags []string) bool {
	if x.prop == "" {
		return true
	}
	for _, t := range tags {
		if t == x.prop {
			return true
		}
	}
	return false
}

func (x *Exec) noteSkipped(s string) { x.skipped[s] = true }

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	return shortPos(x.p.fset.Position(p).String())
}

// oblige records an obligation and assumes it from here on.
func (x *Exec) oblige(st *State, tags []string, kind, label string, goal *Term, pos string) {
	if x.trial == 0 && x.wanted(tags) {
		o := &Obl{Fn: x.name, Label: label, Kind: kind, Tags: tags, Pos: pos, pc: st.pc[:len(st.pc):len(st.pc)], goal: goal, trace: append([]string{}, st.trace...)}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

func (x *Exec) fault(st *State, tags []string, kind, label, err, pos string) {
	if x.trial == 0 && x.wanted(tags) {
		x.obls = append(x.obls, &Obl{Fn: x.name, Label: label, Kind: kind, Tags: tags, Pos: pos, pc: st.pc[:len(st.pc):len(st.pc)], goal: x.u.False(), trace: append([]string{}, st.trace...), err: err})
	}
}

// obligeItems checks clauses.
func (x *Exec) obligeItems(c *Ctx, items []InvItem, kind, pos string, defTags []string) {
	evs := c.items(items, true, defTags)
	// evaluated first, then obliged, so that none helps to prove an earlier one
	for _, ev := range evs {
		if ev.err != "" {
			x.fault(c.st, ev.tags, kind, ev.label, ev.err, pos)
			continue
		}
		x.oblige(c.st, ev.tags, kind, ev.label, ev.t, pos)
	}
}

func (x *Exec) query(st *State, limit time.Duration, extra ...*Term) (Result, string) {
	as := append(append([]*Term{}, st.pc...), extra...)
	for _, a := range as {
		if a.Op == "false" {
			return Unsat, ""
		}
	}
	script := x.u.Script(as, nil)
	if r, ok := x.feasMemo[script]; ok {
		if r {
			return Unknown, ""
		}
		return Unsat, ""
	}
	x.nq++
	r, _ := x.sol.Check(script, limit)
	x.feasMemo[script] = r != Unsat
	return r, script
}

// feasible reports whether a path may be possible.
func (x *Exec) feasible(st *State, extra ...*Term) bool {
	r, _ := x.query(st, time.Second, extra...)
	return r != Unsat
}

// prove reports whether goal follows.
func (x *Exec) prove(st *State, goal *Term) bool {
	if goal.Op == "true" {
		return true
	}
	r, _ := x.query(st, 3*time.Second, x.u.Not(goal))
	return r == Unsat
}

// ---- running code

func (x *Exec) newFrame(caller *Frame, fn *ssa.Function) *Frame {
	x.frames++
	d := 0
	if caller != nil {
		d = caller.depth + 1
	}
	return &Frame{id: x.frames, fn: fn, caller: caller, loops: x.p.loopsOf(fn), depth: d}
}

// inline runs a function body.
func (x *Exec) inline(caller *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, in ssa.Instruction, k Cont) {
	for f := caller; f != nil; f = f.caller {
		if f.fn == fn {
			panic(unsupported("recursive function " + funcKey(fn) + " without a contract"))
		}
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + funcKey(fn)))
	}
	if caller != nil && caller.depth > 40 {
		panic(unsupported("call depth"))
	}
	fr := x.newFrame(caller, fn)
	for i, p := range fn.Params {
		st.env[envKey{fr.id, p}] = args[i]
	}
	for i, fv := range fn.FreeVars {
		st.env[envKey{fr.id, fv}] = binds[i]
	}
	x.block(fr, fn.Blocks[0], st, k)
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State, k Cont) {
	if x.trial == 0 {
		x.covered[b] = true
	}
	x.run(fr, b, 0, st, k)
}

// gotoBlock follows an edge.
func (x *Exec) gotoBlock(fr *Frame, from, to *ssa.BasicBlock, st *State, k Cont) {
	x.leaveLoops(fr, from, to, st, func() {
		if lp := fr.loops.head[to]; lp != nil {
			if lp.blocks[from] {
				ctx := st.loops[loopKey{fr.id, to}]
				if ctx == nil {
					panic("back edge without loop context")
				}
				ctx.back(st, from)
				return
			}
			x.enterLoop(fr, lp, from, st, k)
			return
		}
		x.phis(fr, from, to, st)
		if j := x.joins[joinKey{fr.id, to}]; j != nil {
			j.states = append(j.states, st)
			return
		}
		x.block(fr, to, st, k)
	})
}

func (x *Exec) phis(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(fr, st, p.Edges[idx]))
	}
	for i, p := range phis {
		st.env[envKey{fr.id, p}] = vals[i]
	}
}

// val evaluates an operand.
func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return x.fnTerm(v)
	case *ssa.Global:
		return x.globalLoc(v)
	case *ssa.Builtin:
		return nil
	}
	if r, ok := st.env[envKey{fr.id, v}]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn))
}

func (x *Exec) fnTerm(fn *ssa.Function) *Term {
	t := x.u.Const("func!"+smtName(funcKey(fn)+"."+fn.Name()), SFn)
	t.lit = true
	x.clos[t] = &Clo{fn: fn}
	return t
}

func (x *Exec) globalLoc(g *ssa.Global) *Loc {
	t := deref(g.Type())
	name := "GV:" + g.Pkg.Pkg.Name() + "." + g.Name()
	if _, ok := x.regSorts[name]; !ok {
		x.regSorts[name] = x.te.sortOf(t)
		if x.te.sortOf(t) == SAny && !x.p.repo[g.Pkg.Pkg.Path()] {
			// error values of other packages: non-nil and distinct from each other
			c := x.u.Const(smtName(name)+"@0", SAny)
			x.u.Axiom(c.Op, x.u.Not(x.u.mk("=", SBool, c, x.u.Nil(SAny))))
			x.u.Axiom(c.Op, x.u.mk("=", SBool, x.u.App("globalid", SInt, c), x.u.Int(int64(len(x.regSorts)))))
		}
	}
	return &Loc{region: name, typ: t}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	u := x.u
	t := c.Type()
	if c.Value == nil {
		return x.te.zero(t)
	}
	var v *Term
	switch under(t).(type) {
	case *types.Interface:
		panic(unsupported("constant of interface type"))
	}
	switch x.te.sortOf(t) {
	case SBool:
		v = u.Bool(constant.BoolVal(c.Value))
	case SInt:
		n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if !ok {
			panic(unsupported("integer constant"))
		}
		v = u.BigInt(n)
	case SReal:
		r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if !ok {
			panic(unsupported("float constant"))
		}
		v = u.Real(r)
	case SStr:
		v = x.str(constant.StringVal(c.Value))
	default:
		panic(unsupported("constant " + c.String()))
	}
	return v
}

func (x *Exec) str(s string) *Term { return x.u.Str(s) }

func (x *Exec) set(fr *Frame, st *State, v ssa.Value, r Val) { st.env[envKey{fr.id, v}] = r }

// branch forks on a condition.
func (x *Exec) branch(st *State, cond *Term, pos string, k func(*State, bool)) {
	if cond.lit {
		k(st, cond.Op == "true")
		return
	}
	tOK := x.feasible(st, cond)
	fOK := true
	if tOK {
		fOK = x.feasible(st, x.u.Not(cond))
	}
	if tOK {
		s := st
		if fOK {
			s = st.clone()
		}
		s.assume(cond)
		if fOK {
			s.note("%s: true", pos)
		}
		k(s, true)
	}
	if fOK {
		st.assume(x.u.Not(cond))
		if tOK {
			st.note("%s: false", pos)
		}
		k(st, false)
	}
}

func (x *Exec) budget() {
	x.steps++
	if x.steps > 3000000 || (!x.deadline.IsZero() && time.Now().After(x.deadline)) {
		panic(unsupported("exploration budget exceeded"))
	}
}

// run executes instructions of a block from index i.
func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, i int, st *State, k Cont) {
	x.budget()
	u := x.u
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		next := i + 1
		resume := func(s *State) { x.run(fr, b, next, s, k) }
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			t := deref(in.Type())
			x.set(fr, st, in, x.allocObject(st, t, in.Comment))
		case *ssa.BinOp:
			x.set(fr, st, in, x.binop(st, in, x.val(fr, st, in.X), x.val(fr, st, in.Y)))
		case *ssa.UnOp:
			switch in.Op {
			case token.ARROW:
				ch := x.term(x.val(fr, st, in.X))
				x.recvOp(fr, st, in, ch, in.CommaOk, resume)
				return
			case token.MUL:
				p := x.val(fr, st, in.X)
				x.nonNil(st, p, in.Pos(), "nil dereference")
				x.access(st, p, deref(in.X.Type()), false, in.Pos())
				v := x.load(st, p, deref(in.X.Type()))
				x.set(fr, st, in, v)
			case token.NOT:
				x.set(fr, st, in, u.Not(x.term(x.val(fr, st, in.X))))
			case token.SUB:
				v := x.term(x.val(fr, st, in.X))
				z := u.Int(0)
				if v.Sort == SReal {
					z = u.ToReal(z)
				}
				x.set(fr, st, in, u.Arith("-", z, v))
			default:
				x.set(fr, st, in, x.havocVal(in.Type(), "unop"))
			}
		case *ssa.Store:
			p := x.val(fr, st, in.Addr)
			x.nonNil(st, p, in.Pos(), "nil dereference")
			x.access(st, p, deref(in.Addr.Type()), true, in.Pos())
			x.store(st, p, deref(in.Addr.Type()), x.term(x.val(fr, st, in.Val)))
		case *ssa.FieldAddr:
			p := x.val(fr, st, in.X)
			x.nonNil(st, p, in.Pos(), "nil dereference")
			t := deref(in.X.Type())
			_ = t
			x.set(fr, st, in, x.fieldAddr(st, p, in.X.Type(), in.Field))
		case *ssa.Field:
			v := x.term(x.val(fr, st, in.X))
			d := u.dts[v.Sort]
			r := u.Sel(d, in.Field, v)
			s, _ := x.te.transparentStruct(in.X.Type())
			x.setProv(r, &Loc{typ: s.Field(in.Field).Type(), owner: structName(in.X.Type()), field: s.Field(in.Field).Name()})
			x.set(fr, st, in, r)
		case *ssa.IndexAddr:
			base := x.val(fr, st, in.X)
			idx := x.term(x.val(fr, st, in.Index))
			switch bt := under(in.X.Type()).(type) {
			case *types.Slice:
				s := x.term(base)
				x.safety(st, "index in range", u.And(u.Cmp("<=", u.Int(0), idx), u.Cmp("<", idx, x.slen(s))), in.Pos())
				x.set(fr, st, in, &Loc{region: x.elemRegion(bt.Elem()), ref: x.sref(s), idx: idx, typ: bt.Elem()})
				if arr := x.elems(st, bt.Elem(), s); x.trial == 0 || x.disc == 0 {
					if _, e := splitArr(arr.Sort); x.baseDone["mem!"+smtName(string(e))] {
						// an element of a slice is one of its elements
						st.assume(u.Implies(u.And(u.Cmp("<=", u.Int(0), idx), u.Cmp("<", idx, x.slen(s))),
							u.Select(x.memOf(st, bt.Elem(), s), u.Select(arr, idx))))
					}
				}
			case *types.Pointer:
				at := under(bt.Elem()).(*types.Array)
				switch p := base.(type) {
				case *Term:
					x.set(fr, st, in, &Loc{region: x.elemRegion(at.Elem()), ref: p, idx: idx, typ: at.Elem()})
				default:
					panic(unsupported("element of embedded array"))
				}
			default:
				panic(unsupported("IndexAddr"))
			}
		case *ssa.Index:
			v := x.term(x.val(fr, st, in.X))
			idx := x.term(x.val(fr, st, in.Index))
			if isArr(v.Sort) {
				x.set(fr, st, in, u.Select(v, idx))
			} else {
				x.set(fr, st, in, x.havocVal(in.Type(), "idx"))
			}
		case *ssa.Lookup:
			m := x.term(x.val(fr, st, in.X))
			kv := x.term(x.val(fr, st, in.Index))
			if _, ok := under(in.X.Type()).(*types.Map); !ok {
				x.set(fr, st, in, x.havocVal(in.Type(), "strindex"))
				break
			}
			x.accessMap(st, m, false, in.Pos())
			v, ok := x.mapGet(st, in.X.Type(), m, kv)
			if in.CommaOk {
				x.set(fr, st, in, Tuple{v, ok})
			} else {
				x.set(fr, st, in, v)
			}
		case *ssa.MapUpdate:
			m := x.term(x.val(fr, st, in.Map))
			x.safety(st, "assignment to nil map", u.Not(u.Eq(m, u.Nil(SRef))), in.Pos())
			x.accessMap(st, m, true, in.Pos())
			v := x.term(x.val(fr, st, in.Value))
			x.mapSet(st, in.Map.Type(), m, x.term(x.val(fr, st, in.Key)), v)
		case *ssa.MakeMap:
			x.set(fr, st, in, x.newMap(st, in.Type()))
		case *ssa.MakeChan:
			r := x.newRef(st, "chan")
			sz := x.term(x.val(fr, st, in.Size))
			st.chans[r] = &chanInfo{cap: sz, local: true}
			for _, n := range []string{"closed", "issued"} {
				if g := x.p.sp.Ghosts[n]; g != nil {
					reg := x.ghostRegion(g)
					st.reg[reg] = u.Store(x.region(st, reg), r, u.False())
				}
			}
			x.set(fr, st, in, r)
		case *ssa.MakeSlice:
			et := under(in.Type()).(*types.Slice).Elem()
			r := x.newRef(st, "slice")
			reg := x.elemRegion(et)
			st.reg[reg] = u.Store(x.region(st, reg), r, u.ConstArr(SInt, x.te.zero(et)))
			n := x.term(x.val(fr, st, in.Len))
			x.set(fr, st, in, u.Ctor(u.dts[SSlice], r, n))
		case *ssa.MakeInterface:
			v := x.term(x.val(fr, st, in.X))
			if ti, c := x.typeInv(st, in.X.Type(), v); ti != nil {
				x.obligeItems(c, ti.Items, "invariant of "+ti.Type, x.pos(in.Pos()), x.defTags)
			}
			x.set(fr, st, in, x.box(in.X.Type(), v))
		case *ssa.ChangeInterface:
			x.set(fr, st, in, x.val(fr, st, in.X))
		case *ssa.ChangeType:
			x.set(fr, st, in, x.changeType(x.val(fr, st, in.X), in.X.Type(), in.Type()))
		case *ssa.Convert:
			x.set(fr, st, in, x.convert(st, x.term(x.val(fr, st, in.X)), in.X.Type(), in.Type(), in.Pos()))
		case *ssa.MakeClosure:
			t := x.u.Fresh("closure_"+in.Fn.Name(), SFn)
			t.lit = true
			c := &Clo{fn: in.Fn.(*ssa.Function)}
			for _, bv := range in.Bindings {
				c.binds = append(c.binds, x.val(fr, st, bv))
			}
			x.clos[t] = c
			x.set(fr, st, in, t)
		case *ssa.Slice:
			x.set(fr, st, in, x.sliceOp(fr, st, in))
		case *ssa.Extract:
			tp, ok := x.val(fr, st, in.Tuple).(Tuple)
			if !ok {
				panic(unsupported("extract of a non-tuple"))
			}
			x.set(fr, st, in, tp[in.Index])
		case *ssa.TypeAssert:
			x.typeAssert(fr, st, in, resume)
			return
		case *ssa.Range:
			if mt, ok := under(in.X.Type()).(*types.Map); ok {
				m := x.term(x.val(fr, st, in.X))
				x.accessMap(st, m, false, in.Pos())
				x.iters++
				it := &Iter{id: x.iters, m: m, mt: mt, dom0: x.mapDom(st, in.X.Type(), m)}
				reg := fmt.Sprintf("V:%d", it.id)
				x.regSorts[reg] = it.dom0.Sort
				ks, _ := splitArr(it.dom0.Sort)
				st.reg[reg] = u.ConstArr(ks, u.False())
				x.set(fr, st, in, it)
			} else {
				panic(unsupported("range over string"))
			}
		case *ssa.Next:
			it, ok := x.val(fr, st, in.Iter).(*Iter)
			if !ok {
				panic(unsupported("next"))
			}
			x.accessMap(st, it.m, false, in.Pos())
			reg := fmt.Sprintf("V:%d", it.id)
			vis := x.region(st, reg)
			ks, _ := splitArr(it.dom0.Sort)
			dom := x.mapDom(st, it.mt, it.m)
			// exhausted
			s2 := st.clone()
			kb := u.BoundVar("k", ks)
			s2.assume(u.Implies(u.Eq(dom, it.dom0), u.Forall([]*Term{kb}, nil, u.Implies(u.Select(dom, kb), u.Select(vis, kb)))))
			x.set(fr, s2, in, Tuple{u.False(), x.te.zero(it.mt.Key()), x.te.zero(it.mt.Elem())})
			if x.feasible(s2) {
				x.run(fr, b, next, s2, k)
			}
			key := u.Fresh("key", ks)
			st.assume(u.Select(dom, key))
			st.assume(u.Not(u.Select(vis, key)))
			st.reg[reg] = u.Store(vis, key, u.True())
			v := u.Select(x.mapVal(st, it.mt, it.m), key)
			x.set(fr, st, in, Tuple{u.True(), key, v})
			if !x.feasible(st) {
				return
			}
		case *ssa.Call:
			x.callInstr(fr, st, &in.Call, in, func(s *State, o Outcome) {
				x.afterCall(fr, s, in, o, k, func(s *State) { x.run(fr, b, next, s, k) })
			})
			return
		case *ssa.Defer:
			d := deferred{call: in.Call, in: in}
			d.fn, d.args = x.callOperands(fr, st, &in.Call)
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.RunDefers:
			x.runDefers(fr, st, Outcome{}, func(s *State, o Outcome) {
				if o.kind != oReturn {
					x.unwind(fr, s, o, k)
					return
				}
				resume(s)
			})
			return
		case *ssa.Go:
			x.goStmt(fr, st, in, resume)
			return
		case *ssa.Send:
			ch := x.term(x.val(fr, st, in.Chan))
			x.sendOp(fr, st, in.Pos(), ch, x.val(fr, st, in.X), in.X.Type(), resume)
			return
		case *ssa.Select:
			x.selectOp(fr, st, in, resume)
			return
		case *ssa.Panic:
			x.unwind(fr, st, Outcome{kind: oPanic, pv: x.term(x.val(fr, st, in.X))}, k)
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range in.Results {
				vals = append(vals, x.val(fr, st, r))
			}
			st.note("%s: return", x.pos(in.Pos()))
			k(st, Outcome{kind: oReturn, vals: vals})
			return
		case *ssa.Jump:
			x.gotoBlock(fr, b, b.Succs[0], st, k)
			return
		case *ssa.If:
			c := x.term(x.val(fr, st, in.Cond))
			if j := x.joinOf(fr, b); j != nil && !c.lit {
				x.ifJoin(fr, b, j, st, c, x.pos(in.Cond.Pos()), k)
				return
			}
			x.branch(st, c, x.pos(in.Cond.Pos()), func(s *State, t bool) {
				if t {
					x.gotoBlock(fr, b, b.Succs[0], s, k)
				} else {
					x.gotoBlock(fr, b, b.Succs[1], s, k)
				}
			})
			return
		default:
			panic(unsupported(fmt.Sprintf("instruction %T at %s", in, x.pos(in.Pos()))))
		}
	}
}

// afterCall continues after a call, or unwinds.
func (x *Exec) afterCall(fr *Frame, st *State, in ssa.Value, o Outcome, k Cont, resume func(*State)) {
	if o.kind != oReturn {
		x.unwind(fr, st, o, k)
		return
	}
	switch {
	case len(o.vals) == 1:
		x.set(fr, st, in, o.vals[0])
	case len(o.vals) > 1:
		x.set(fr, st, in, Tuple(o.vals))
	}
	resume(st)
}

// runDefers runs the deferred calls of a frame, last first.
func (x *Exec) runDefers(fr *Frame, st *State, cur Outcome, k Cont) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st, cur)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	x.callResolved(fr, st, &d.call, d.fn, d.args, d.in, func(s *State, o Outcome) {
		if o.kind == oPanic {
			// a new panic replaces the current one
			if n := len(s.panics); n > 0 && s.panics[n-1].frame == fr.id {
				s.panics[n-1].val = o.pv
				s.panics[n-1].recovered = false
			}
			x.runDefers(fr, s, o, k)
			return
		}
		x.runDefers(fr, s, cur, k)
	})
}

// unwind leaves a frame by panic or Goexit.
func (x *Exec) unwind(fr *Frame, st *State, o Outcome, k Cont) {
	st.panics = append(st.panics, panicRec{val: o.pv, frame: fr.id})
	x.runDefers(fr, st, o, func(s *State, o2 Outcome) {
		n := len(s.panics) - 1
		p := s.panics[n]
		s.panics = s.panics[:n]
		if p.recovered && o2.kind == oPanic {
			if fr.fn.Recover != nil {
				x.block(fr, fr.fn.Recover, s, k)
				return
			}
			var vals []Val
			rs := fr.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				vals = append(vals, x.te.zero(rs.At(i).Type()))
			}
			k(s, Outcome{kind: oReturn, vals: vals})
			return
		}
		k(s, o2)
	})
}

// ---- values

func (x *Exec) havocVal(t types.Type, prefix string) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var out Tuple
		for i := 0; i < tp.Len(); i++ {
			out = append(out, x.havocVal(tp.At(i).Type(), prefix))
		}
		return out
	}
	v := x.u.Fresh(prefix, x.te.sortOf(t))
	return v
}

func (x *Exec) changeType(v Val, from, to types.Type) Val {
	fs, ts := x.te.sortOf(from), x.te.sortOf(to)
	if fs == ts {
		return v
	}
	// struct with identical fields
	d1, d2 := x.u.dts[fs], x.u.dts[ts]
	if d1 != nil && d2 != nil && len(d1.Sels) == len(d2.Sels) {
		t := x.term(v)
		args := make([]*Term, len(d1.Sels))
		for i := range args {
			args[i] = x.u.Sel(d1, i, t)
		}
		return x.u.Ctor(d2, args...)
	}
	panic(unsupported("conversion " + typeName(from) + " to " + typeName(to)))
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type, pos token.Pos) Val {
	u := x.u
	fs, ts := x.te.sortOf(from), x.te.sortOf(to)
	switch {
	case fs == SInt && ts == SReal:
		return u.ToReal(v)
	case fs == SReal && ts == SInt:
		// truncation; out of range is unspecified behaviour
		lim := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63))
		x.safety(st, "float to integer conversion in range", u.And(u.Cmp("<", v, u.Real(lim)), u.Cmp(">", v, u.Real(new(big.Rat).Neg(lim)))), pos)
		r := u.Fresh("trunc", SInt)
		fr := u.ToReal(r)
		one := u.Real(big.NewRat(1, 1))
		z := u.Real(big.NewRat(0, 1))
		st.assume(u.Implies(u.Cmp(">=", v, z), u.And(u.Cmp("<=", fr, v), u.Cmp("<", v, u.Arith("+", fr, one)), u.Cmp(">=", r, u.Int(0)))))
		st.assume(u.Implies(u.Cmp("<", v, z), u.And(u.Cmp(">=", fr, v), u.Cmp(">", v, u.Arith("-", fr, one)), u.Cmp("<=", r, u.Int(0)))))
		return r
	case fs == ts:
		return v
	}
	return u.App("conv!"+smtName(string(fs))+"!"+smtName(string(ts)), ts, v)
}

func (x *Exec) binop(st *State, in *ssa.BinOp, a, b Val) Val {
	u := x.u
	ta, tb := x.term(a), x.term(b)
	switch in.Op {
	case token.EQL, token.NEQ:
		if ta.Sort != tb.Sort {
			if ta.Sort == SAny {
				tb = x.box(in.Y.Type(), tb)
			} else if tb.Sort == SAny {
				ta = x.box(in.X.Type(), ta)
			}
		}
		var r *Term
		if ta.Sort == SSlice {
			r = u.Eq(x.sref(ta), x.sref(tb))
		} else {
			r = u.Eq(ta, tb)
		}
		if in.Op == token.NEQ {
			r = u.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return u.Cmp(in.Op.String(), ta, tb)
	case token.ADD, token.SUB, token.MUL:
		if ta.Sort == SStr {
			return u.App("strcat", SStr, ta, tb)
		}
		return u.Arith(in.Op.String(), ta, tb)
	case token.QUO:
		if ta.Sort == SInt {
			x.safety(st, "division by zero", u.Not(u.Eq(tb, u.Int(0))), in.Pos())
		}
		return u.Arith("/", ta, tb)
	case token.AND, token.OR:
		if ta.Sort == SBool {
			if in.Op == token.AND {
				return u.And(ta, tb)
			}
			return u.Or(ta, tb)
		}
	}
	return x.havocVal(in.Type(), "binop")
}

func (x *Exec) sliceOp(fr *Frame, st *State, in *ssa.Slice) Val {
	u := x.u
	base := x.val(fr, st, in.X)
	low := u.Int(0)
	if in.Low != nil {
		low = x.term(x.val(fr, st, in.Low))
	}
	switch bt := under(in.X.Type()).(type) {
	case *types.Pointer:
		at := under(bt.Elem()).(*types.Array)
		n := u.Int(at.Len())
		if in.High != nil {
			n = x.term(x.val(fr, st, in.High))
		}
		if low.Op != "0" {
			panic(unsupported("slice of array with a low bound"))
		}
		p, ok := base.(*Term)
		if !ok {
			panic(unsupported("slice of embedded array"))
		}
		return u.Ctor(u.dts[SSlice], p, n)
	case *types.Slice:
		s := x.term(base)
		n := x.slen(s)
		if in.High != nil {
			n = x.term(x.val(fr, st, in.High))
		}
		if low.Op == "0" {
			return u.Ctor(u.dts[SSlice], x.sref(s), n)
		}
		// s[low:high] as a copy
		x.notes["slicing with a low bound is modelled as a copy"] = true
		r := x.newRef(st, "sub")
		reg := x.elemRegion(bt.Elem())
		arr := u.Fresh("subarr", arrSort(SInt, x.te.sortOf(bt.Elem())))
		j := u.BoundVar("j", SInt)
		st.assume(u.Forall([]*Term{j}, []*Term{u.Select(arr, j)}, u.Eq(u.Select(arr, j), u.Select(u.Select(x.region(st, reg), x.sref(s)), u.Arith("+", j, low)))))
		st.reg[reg] = u.Store(x.region(st, reg), r, arr)
		return u.Ctor(u.dts[SSlice], r, u.Arith("-", n, low))
	}
	return x.havocVal(in.Type(), "substr")
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, resume func(*State)) {
	u := x.u
	v := x.term(x.val(fr, st, in.X))
	var ok, r *Term
	t := in.AssertedType
	if it, isI := under(t).(*types.Interface); isI {
		ok = x.implements(v, t)
		if types.Implements(in.X.Type(), it) {
			ok = u.Not(u.Eq(v, u.Nil(SAny)))
		}
		r = v
	} else {
		ok = u.And(u.Not(u.Eq(v, u.Nil(SAny))), u.Eq(u.App("dyntype", SInt, v), x.te.tag(t)))
		r = x.te.Unbox(t, v)
		b := x.box(t, r)
		st.assume(u.Implies(ok, u.Eq(b, v)))
		x.assumeTypeInv(st, t, r, ok)
	}
	if in.CommaOk {
		x.set(fr, st, in, Tuple{u.Ite(ok, r, x.te.zero(t)), ok})
		resume(st)
		return
	}
	x.safety(st, "type assertion succeeds", ok, in.Pos())
	x.set(fr, st, in, r)
	resume(st)
}

// nonNil checks a pointer that is about to be dereferenced.
func (x *Exec) nonNil(st *State, p Val, pos token.Pos, what string) {
	t, ok := p.(*Term)
	if !ok || t.fresh > 0 || x.locOf[t] != nil {
		return
	}
	x.safety(st, what, x.u.Not(x.u.Eq(t, x.u.Nil(SRef))), pos)
}

func (x *Exec) safety(st *State, label string, goal *Term, pos token.Pos) {
	x.oblige(st, x.defTags, "safety", label, goal, x.pos(pos))
}

// ---- invariants of types

func (x *Exec) typeInv(st *State, t types.Type, v *Term) (*TypeInv, *Ctx) {
	n, ok := normType(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, nil
	}
	ti := x.p.sp.TypeInvs[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	if ti == nil {
		return nil, nil
	}
	return ti, &Ctx{x: x, st: st, old: st, entry: x.root, vars: map[string]SV{ti.Self: {t: v, typ: t}}, pkg: n.Obj().Pkg().Name()}
}

// assumeTypeInv: v, where ok holds, was found in an interface.
func (x *Exec) assumeTypeInv(st *State, t types.Type, v, ok *Term) {
	if ti, c := x.typeInv(st, t, v); ti != nil {
		for _, ev := range c.items(ti.Items, false, nil) {
			st.assume(x.u.Implies(ok, ev.t))
		}
	}
}

// ---- function names

func funcKey(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			return objKey(f)
		}
	}
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + "$" + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return fn.String()
}

func objKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pkg := ""
	if f.Pkg() != nil {
		pkg = f.Pkg().Name() + "."
	}
	if r := sig.Recv(); r != nil {
		t := normType(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = normType(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + n.Obj().Name() + "." + f.Name()
		}
		return pkg + "interface." + f.Name()
	}
	return pkg + f.Name()
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
