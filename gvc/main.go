package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var (
	debugLoops bool
	flagLimit  = 20 * time.Second
	flagFnTime = 400 * time.Second
	flagBudget = 240 * time.Second
	slots      = make(chan struct{}, 8)
)

// FnResult is the outcome of verifying one function.
type FnResult struct {
	Fn         string
	File       string
	Err        string // not verified at all, and why
	Obls       []*Obl
	Paths      int
	Reached    int
	Vacuous    bool
	Millis     int64
	Used       []string
	Inlined    []string
	Invariants []string
	Notes      []string
	Skipped    []string
	Unreached  []string // code no feasible path leads to
	spec       *FuncSpec
	accs       []*Access
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// verify checks one function against its contract.
func verify(p *Prog, spec *FuncSpec, fn *ssa.Function, prop string, dropped map[string]bool, end time.Time) *FnResult {
	res := verifyWith(p, spec, fn, prop, dropped, end, spec.OptLast)
	other, opt := res.Err != "", false
	for _, o := range res.Obls {
		if !o.OK && !o.Untried {
			need := o.opt || spec.OptLast && o.Kind == waitsKind
			other, opt = other || !need, opt || need
		}
	}
	if opt && !other {
		return verifyWith(p, spec, fn, prop, dropped, end, !spec.OptLast)
	}
	return res
}

const waitsKind = "liveness: waits only when"

// unforeseen: a loop changes something that the exploration of its body did
// not show; the function is tried again with that knowledge.
type unforeseen struct {
	head *ssa.BasicBlock
	reg  string
}

func verifyWith(p *Prog, spec *FuncSpec, fn *ssa.Function, prop string, dropped map[string]bool, end time.Time, noOpt bool) (res *FnResult) {
	extra := map[*ssa.BasicBlock]map[string]bool{}
	for i := 0; ; i++ {
		res, un := verifyOnce(p, spec, fn, prop, dropped, end, noOpt, extra)
		if un == nil || i == 8 {
			return res
		}
		if extra[un.head] == nil {
			extra[un.head] = map[string]bool{}
		}
		extra[un.head][un.reg] = true
	}
}

func verifyOnce(p *Prog, spec *FuncSpec, fn *ssa.Function, prop string, dropped map[string]bool, end time.Time, noOpt bool, extra map[*ssa.BasicBlock]map[string]bool) (res *FnResult, un *unforeseen) {
	t0 := time.Now()
	x := NewExec(p, spec, fn, prop, dropped)
	x.extraMod = extra
	x.noOpt = noOpt
	res = &FnResult{Fn: spec.Key, spec: spec, File: shortPos(p.fset.Position(fn.Pos()).String())}
	defer x.sol.Close()
	x.deadline = t0.Add(flagFnTime)
	if end.Before(x.deadline) {
		x.deadline = end
	}
	finish := func() {
		res.Obls = x.obls
		res.Reached = x.reached
		res.Paths = x.paths
		res.Used, res.Inlined, res.Invariants = keys(x.used), keys(x.inlined), keys(x.loopInvs)
		res.Notes, res.Skipped = keys(x.notes), keys(x.skipped)
		res.accs = x.accs
		res.Unreached = x.unreached()
		res.Millis = time.Since(t0).Milliseconds()
	}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unforeseen:
				un = &e
				res.Err = "not within reach of the verifier: a loop changes " + e.reg + ", which was not foreseen"
			case unsupported:
				res.Err = "not within reach of the verifier: " + string(e)
			case specError:
				res.Err = "contract cannot be evaluated: " + e.msg
			default:
				res.Err = fmt.Sprintf("internal error: %v", r)
				if os.Getenv("GVC_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", spec.Key, r, debug.Stack())
				}
			}
			for _, o := range x.obls {
				o.Untried = o.Untried || !o.OK && o.err == "" // nobody has looked at them
			}
			finish()
		}
	}()
	x.execute()
	finish()
	x.discharge(res)
	res.Millis = time.Since(t0).Milliseconds()
	return res, nil
}

func (x *Exec) execute() {
	u := x.u
	spec, fn := x.spec, x.fn
	pkg := specPkg(spec)
	x.defTags = spec.Safety
	if x.defTags == nil {
		x.defTags = x.p.sp.PkgTags[pkg]
	}
	st := &State{reg: map[string]*Term{}, env: map[envKey]Val{}, defers: map[int][]deferred{}, held: map[string]*Term{}, clock: x.clock0,
		chans: map[*Term]*chanInfo{}, dirty: map[string]bool{}, loops: map[loopKey]*loopCtx{}, role: spec.Role}
	x.root = st // constants are evaluated against it
	var args []Val
	var ts []types.Type
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(spec.Params) {
			n = spec.Params[i]
		}
		t := u.Const("p_"+smtName(n), x.te.sortOf(p.Type()))
		x.bornDeep(st, t, x.clock0)
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := under(p.Type()).(*types.Pointer); ok {
				st.assume(u.Not(u.Eq(t, u.Nil(SRef))))
			}
		}
		args = append(args, t)
		ts = append(ts, p.Type())
	}
	vars := x.bindParams(spec, args, ts)
	x.rootCtx = &Ctx{x: x, st: st, old: st, entry: st, vars: vars, pkg: pkg}
	for i, e := range x.p.sp.Axioms {
		if a := x.p.sp.AxiomPkg[i]; a != "" && a != pkg {
			continue
		}
		c := &Ctx{x: x, st: st, old: st, entry: st, vars: map[string]SV{}, pkg: pkg}
		st.assume(c.evalBool(e))
	}
	for _, l := range x.p.sp.Lemmas {
		if l.Pkg != "" && l.Pkg != pkg {
			continue
		}
		c := &Ctx{x: x, st: st, old: st, entry: st, vars: map[string]SV{}, pkg: pkg}
		x.u.trueMul = true
		g := c.evalBool(l.E)
		x.u.trueMul = false
		alone := st.clone()
		alone.pc = nil // what else holds is of no use, and in the solver's way
		x.oblige(alone, x.defTags, "lemma", l.Name, g, "")
		st.assume(c.evalBool(l.E))
	}
	for _, n := range x.p.sp.GhostOrd {
		g := x.p.sp.Ghosts[n]
		if g.Local && (spec.Root || spec.Spawned) {
			x.initGhost(st, g)
		}
	}
	for _, l := range spec.Holds {
		// the lock's object is the receiver
		if len(args) > 0 {
			st.held[l] = args[0].(*Term)
		}
	}
	x.rootCtx.assumeItems(spec.Requires)
	x.root = st.clone()
	x.rootCtx.st, x.rootCtx.old, x.rootCtx.entry = x.root, x.root, x.root
	if !x.feasible(st) {
		panic(unsupported("the precondition is contradictory"))
	}
	clock0 := st.clock
	body := st.clone()
	frame := x.newFrame(nil, fn)
	_ = frame
	x.inline(nil, body, fn, args, nil, nil, func(s *State, o Outcome) {
		x.finishPath(s, o, vars, clock0)
	})
}

func (x *Exec) initGhost(st *State, g *GhostDecl) {
	if g.Init == nil {
		return
	}
	r := x.ghostRegion(g)
	v := x.rootCtx.eval(g.Init)
	s := x.regSort(r)
	_, es := s, s
	if isArr(s) {
		_, es = splitArr(s)
	}
	if v.nil {
		v.t = x.u.Nil(es)
	}
	if isArr(s) && v.t.Sort != s {
		k, _ := splitArr(s)
		v.t = x.u.ConstArr(k, v.t)
	}
	st.reg[r] = v.t
}

func (x *Exec) finishPath(s *State, o Outcome, vars map[string]SV, clock0 *Term) {
	u := x.u
	spec := x.spec
	if s.dead() || !x.feasible(s) {
		return
	}
	x.paths++
	pos := "return"
	if n := len(s.trace); n > 0 {
		pos = strings.TrimSuffix(s.trace[n-1], ": return")
	}
	for l := range s.held {
		held := false
		for _, h := range spec.Holds {
			held = held || h == l
		}
		if !held {
			x.fault(s, x.lockTags(l), "lock", "lock "+l+" is released on every path", "", pos)
		}
	}
	for _, l := range spec.Holds {
		if s.held[l] == nil {
			x.fault(s, x.lockTags(l), "lock", "lock "+l+" is still held at return", "", pos)
		}
	}
	x.checkDirty(s, pos)
	if s.tok != 0 {
		x.fault(s, x.wgTags(), "waitgroup", "everything added to a wait group is handed to a goroutine that releases it", "", pos)
	}
	c := &Ctx{x: x, st: s, old: x.root, entry: x.root, vars: map[string]SV{}, pkg: x.rootCtx.pkg}
	for k, v := range vars {
		c.vars[k] = v
	}
	switch o.kind {
	case oPanic:
		if !spec.MayPanic {
			x.fault(s, x.defTags, "panic", "no panic", "", pos)
			return
		}
		c.vars["$panic"] = SV{t: o.pv, typ: types.NewInterfaceType(nil, nil)}
		x.obligeItems(c, spec.OnPanic, "onpanic", pos, x.defTags)
		return
	case oExit:
		if !spec.MayExit {
			x.fault(s, x.defTags, "panic", "no Goexit", "", pos)
		} else if len(spec.Results) == 0 {
			x.obligeItems(c, spec.Ensures, "end by Goexit", pos, x.defTags)
		}
		return
	}
	x.reached++
	rs := x.fn.Signature.Results()
	for i, v := range o.vals {
		if i < len(spec.Results) {
			c.vars[spec.Results[i]] = SV{t: x.term(v), typ: rs.At(i).Type()}
		}
	}
	if len(spec.AtReturn) > 0 || spec.Kind == "func" && len(spec.Do) > 0 {
		s = s.clone()
		c.st = s
		c.doAssign(spec.AtReturn)
		c.doAssign(spec.Do)
	}
	if spec.Is != nil && len(o.vals) > 0 {
		want := c.eval(spec.Is)
		w := want.t
		if want.nil {
			w = u.Nil(x.term(o.vals[0]).Sort)
		}
		x.oblige(s, x.defTags, "postcondition", "result", u.Eq(x.term(o.vals[0]), w), pos)
	}
	x.obligeItems(c, spec.Ensures, "postcondition", pos, x.defTags)
	for _, t := range spec.Thens {
		x.then(c, t, pos)
	}
	if !spec.Root && !spec.Spawned {
		x.frameCheck(c, s, clock0, pos)
	}
}

// then calls a function value that has been returned.
func (x *Exec) then(c *Ctx, t *Then, pos string) {
	s := c.st.clone()
	c1 := *c
	c1.st = s
	f := c1.eval(t.F)
	sig, ok := under(f.typ).(*types.Signature)
	if !ok {
		c.fail(t.F, "not a function")
	}
	x.oblige(s, x.defTags, "postcondition", "a function is returned", x.u.Not(x.u.Eq(f.t, x.u.Nil(SFn))), pos)
	vars := map[string]SV{}
	for k, v := range c.vars {
		vars[k] = v
	}
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		a := x.u.Fresh("arg", x.te.sortOf(p.Type()))
		x.bornDeep(s, a, s.clock)
		args = append(args, a)
		if i < len(t.Params) {
			vars[t.Params[i]] = SV{t: a, typ: p.Type()}
		}
	}
	c1.vars = vars
	c1.assumeItems(t.Reqs)
	old := s.clone()
	x.callValue(nil, s, f.t, sig, args, token.NoPos, func(e *State, o Outcome) {
		if e.dead() || !x.feasible(e) {
			return
		}
		x.paths++
		if o.kind != oReturn {
			x.fault(e, x.defTags, "panic", "no panic in a function it returns", "", pos)
			return
		}
		c2 := c1
		c2.st, c2.old = e, old
		c2.vars = map[string]SV{}
		for k, v := range vars {
			c2.vars[k] = v
		}
		for i, v := range o.vals {
			if i < len(t.Results) {
				c2.vars[t.Results[i]] = SV{t: x.term(v), typ: sig.Results().At(i).Type()}
			}
		}
		x.obligeItems(&c2, t.Ens, "postcondition of a function it returns", pos, x.defTags)
	})
}

// unreached lists the places in the code executed that no path reached.
func (x *Exec) unreached() []string {
	fns := map[*ssa.Function]bool{}
	for b := range x.covered {
		fns[b.Parent()] = true
	}
	var out []string
	for f := range fns {
		for _, b := range f.Blocks {
			if x.covered[b] || b.Comment == "recover" {
				continue
			}
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					out = append(out, f.Name()+" "+x.pos(in.Pos()))
					break
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// frameCheck: nothing outside the modifies clause has changed.
func (x *Exec) frameCheck(c *Ctx, s *State, clock0 *Term, pos string) {
	u := x.u
	whole := map[string]bool{}
	except := map[string][]*Term{}
	c0 := &Ctx{x: x, st: x.root, old: x.root, entry: x.root, vars: x.rootCtx.vars, pkg: c.pkg}
	for _, m := range x.spec.Modifies {
		for _, r := range x.modRegions(x, m, c.pkg) {
			if strings.HasPrefix(r, "new ") {
				continue
			}
			whole[r] = true
		}
		if e := x.modMap(m); e != nil {
			v := c0.eval(e)
			d, vr := x.mapRegions(v.typ)
			except[d] = append(except[d], v.t)
			except[vr] = append(except[vr], v.t)
		}
	}
	for _, a := range x.spec.Do {
		whole["G:"+a.Target] = true
	}
	var names []string
	for r := range s.reg {
		names = append(names, r)
	}
	sort.Strings(names)
	for _, r := range names {
		if whole[r] || strings.HasPrefix(r, "V:") {
			continue
		}
		if strings.HasPrefix(r, "G:") {
			g := x.p.sp.Ghosts[r[2:]]
			if g.Shared && x.spec.Blocks {
				continue
			}
		}
		cur, base := s.reg[r], x.region(x.root, r)
		if cur == base {
			continue
		}
		if !isArr(cur.Sort) {
			x.oblige(s, x.defTags, "frame", r+" is unchanged", u.Eq(cur, base), pos)
			continue
		}
		k, _ := splitArr(cur.Sort)
		i := u.Fresh("sk", k)
		var ante []*Term
		if k == SRef {
			ante = append(ante, u.Cmp("<=", x.birth(i), clock0))
		}
		for _, e := range except[r] {
			ante = append(ante, u.Not(u.Eq(i, e)))
		}
		x.oblige(s, x.defTags, "frame", r+" is unchanged", u.Implies(u.And(ante...), u.Eq(u.Select(cur, i), u.Select(base, i))), pos)
	}
}

// ---- discharging obligations

type job struct {
	obls []*Obl
}

func (x *Exec) discharge(res *FnResult) {
	u := x.u
	// group obligations raised at one point
	var jobs []*job
	for _, o := range x.obls {
		if o.err != "" {
			continue
		}
		if o.goal.Op == "true" {
			o.OK, o.Trivial, o.Backend = true, true, "simplifier"
			continue
		}
		if n := len(jobs); n > 0 {
			l := jobs[n-1].obls
			last := l[len(l)-1]
			if last.Kind == o.Kind && last.Pos == o.Pos && len(l) < 6 && len(o.pc) >= len(last.pc) && len(o.pc) <= len(last.pc)+4 && samePrefix(last.pc, o.pc) && last.goal.Op != "false" && o.goal.Op != "false" {
				jobs[n-1].obls = append(l, o)
				continue
			}
		}
		jobs = append(jobs, &job{[]*Obl{o}})
	}
	var wg sync.WaitGroup
	var fails int32
	for _, o := range x.obls {
		if o.err != "" {
			fails++
		}
	}
	for _, j := range jobs {
		var gs []*Term
		for _, o := range j.obls {
			gs = append(gs, o.goal)
		}
		script := u.Script(append(append([]*Term{}, j.obls[0].pc...), u.Not(u.And(gs...))), nil)
		var single []string
		if len(j.obls) > 1 {
			for _, o := range j.obls {
				single = append(single, u.Script(append(append([]*Term{}, o.pc...), u.Not(o.goal)), nil))
			}
		}
		slots <- struct{}{}
		wg.Add(1)
		go func(j *job) {
			defer func() { <-slots; wg.Done() }()
			// a function that has failed is not worth every obligation left
			limit := flagLimit
			switch n := atomic.LoadInt32(&fails); {
			case n >= 3:
				for _, o := range j.obls {
					o.Untried = true
				}
				return
			case n > 0 && limit > 8*time.Second:
				limit = 8 * time.Second
			}
			defer func() {
				for _, o := range j.obls {
					if !o.OK {
						atomic.AddInt32(&fails, 1)
					}
				}
			}()
			s := solverPool.Get().(*Solver)
			defer solverPool.Put(s)
			if len(j.obls) == 1 {
				dischargeOne(s, j.obls[0], script, limit)
				return
			}
			t0 := time.Now()
			if r, _ := s.Check(script, 6*time.Second); r == Unsat {
				for _, o := range j.obls {
					o.OK, o.Backend = true, "z3"
					o.Millis = time.Since(t0).Milliseconds() / int64(len(j.obls))
				}
				if flagCross {
					c := crossCheck(script)
					for _, o := range j.obls {
						o.Cross = c
					}
				}
				return
			}
			for i, o := range j.obls {
				dischargeOne(s, o, single[i], limit)
				if !o.OK && i > 2 {
					break
				}
			}
		}(j)
	}
	wg.Wait()
}

func samePrefix(a, b []*Term) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := n - 1; i >= 0 && i >= n-3; i-- {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var solverPool = sync.Pool{New: func() any { return NewZ3() }}

func dischargeOne(s *Solver, o *Obl, script string, limit time.Duration) {
	t0 := time.Now()
	defer func() { o.Millis = time.Since(t0).Milliseconds() }()
	r, _ := s.Check(script, limit)
	if r == Unsat {
		o.OK, o.Backend = true, "z3"
		if flagCross {
			o.Cross = crossCheck(script)
		}
		return
	}
	if o.goal.Op == "false" && r == Sat {
		o.Script = script
		return
	}
	if os.Getenv("GVC_FAST") != "" {
		o.Script = script
		return
	}
	if b := otherBackends(script, limit); b != "" {
		o.OK, o.Backend = true, b
		return
	}
	o.Script = script
}

// otherBackends runs cvc5 and z3 4.8 side by side; it names one that agrees.
func otherBackends(script string, limit time.Duration) string {
	c := make(chan string, 2)
	go func() {
		if checkOneShot("cvc5", []string{"--lang=smt2", "--quiet", "--incremental", "--force-logic=ALL"}, script, limit) == Unsat {
			c <- "cvc5"
		} else {
			c <- ""
		}
	}()
	go func() {
		if checkOneShot("z3", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", int(limit.Seconds())+1)}, script, limit) == Unsat {
			c <- "z3-4.8"
		} else {
			c <- ""
		}
	}()
	if b := <-c; b != "" {
		return b
	}
	return <-c
}

var flagCross bool

// crossCheck asks the other solvers about an obligation already discharged.
func crossCheck(script string) string {
	if b := otherBackends(script, 10*time.Second); b != "" {
		return b
	}
	return "none"
}

// ---- the whole run

// Report is the result of checking a property.
type Report struct {
	Property  string
	Results   []*FnResult
	Missing   []string
	Dropped   []string
	Failed    []*Obl
	Undecided []string
	Millis    int64
	SolverNS  int64
	Queries   int64
	Assume    []string
	Traces    map[string][]string // a path to each kind of failure
}

func wants(p *Prog, spec *FuncSpec, prop string) bool {
	if prop == "" {
		return true
	}
	for _, t := range p.sp.PkgTags[specPkg(spec)] {
		if t == prop {
			return true
		}
	}
	return false
}

func (r *FnResult) failed() bool {
	for _, o := range r.Obls {
		if !o.OK && !o.Untried {
			return true
		}
	}
	return false
}

func runAll(p *Prog, prop, only string) *Report {
	t0 := time.Now()
	dropped := map[string]bool{}
	local := map[string]map[string]bool{} // helpers inlined in one function only
	done := map[string]*FnResult{}
	before := map[string]*FnResult{}
	rep := &Report{Property: prop}
	for round := 0; round < 6; round++ {
		type item struct {
			spec *FuncSpec
			fn   *ssa.Function
		}
		var items []item
		rep.Missing = nil
		for _, k := range p.sp.FuncOrd {
			spec := p.sp.Funcs[k]
			if spec.Kind != "func" || !wants(p, spec, prop) || dropped[spec.Key] {
				continue
			}
			if only != "" && !matchOnly(spec.Key, only) {
				continue
			}
			fn, why := p.findFunc(spec)
			if fn == nil {
				if !spec.Helper {
					rep.Missing = append(rep.Missing, spec.Key+": "+why)
				} else {
					dropped[spec.Key] = true
				}
				continue
			}
			items = append(items, item{spec, fn})
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for _, it := range items {
			mu.Lock()
			r := done[it.spec.Key]
			mu.Unlock()
			if r != nil {
				continue
			}
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				drop := map[string]bool{}
				for k := range dropped {
					drop[k] = true
				}
				mu.Lock()
				for k := range local[it.spec.Key] {
					drop[k] = true
				}
				mu.Unlock()
				end := t0.Add(flagBudget)
				if it.spec.Helper && round > 0 {
					// its callers may still do without the contract
					if e := time.Now().Add(flagBudget / 4); e.Before(end) {
						end = e
					}
				}
				r := verify(p, it.spec, it.fn, prop, drop, end)
				mu.Lock()
				if o := before[it.spec.Key]; r.Err != "" && o != nil && o.failed() {
					r = o // its failed obligations say more
				}
				if r.Err == "" {
					before[it.spec.Key] = r
				}
				done[it.spec.Key] = r
				mu.Unlock()
			}()
		}
		wg.Wait()
		rep.Results = nil
		newDrop, again := map[string]bool{}, map[string]bool{}
		for _, it := range items {
			r := done[it.spec.Key]
			rep.Results = append(rep.Results, r)
			bad := r.Err != ""
			for _, o := range r.Obls {
				if o.OK {
					continue
				}
				if o.helper != "" {
					newDrop[o.helper] = true
				}
				bad = true
			}
			if !bad {
				continue
			}
			// the contracts of helpers may be too weak for the caller
			more := false
			for _, k := range r.Used {
				k = strings.TrimPrefix(k, "func:")
				if sp := p.sp.Funcs[k]; sp != nil && sp.Helper && !dropped[k] && !local[it.spec.Key][k] {
					if local[it.spec.Key] == nil {
						local[it.spec.Key] = map[string]bool{}
					}
					local[it.spec.Key][k] = true
					more = true
				}
			}
			if more {
				again[it.spec.Key] = true
			}
			if it.spec.Helper && (!more || round > 0 || time.Since(t0) > flagBudget/2) {
				newDrop[it.spec.Key] = true
			}
		}
		if len(newDrop)+len(again) == 0 || os.Getenv("GVC_NODROP") != "" || time.Since(t0) > flagBudget {
			break
		}
		for k := range newDrop {
			dropped[k] = true
			delete(done, k)
		}
		for k := range again {
			delete(done, k)
		}
		// whatever used a dropped contract is verified again
		for k, r := range done {
			for _, usedKey := range r.Used {
				if newDrop[strings.TrimPrefix(usedKey, "func:")] {
					delete(done, k)
				}
			}
		}
	}
	rep.Dropped = keys(dropped)
	for _, r := range rep.Results {
		if r.Err != "" {
			rep.Undecided = append(rep.Undecided, r.Fn+": "+r.Err)
		} else if r.Reached == 0 {
			r.Vacuous = true
			rep.Undecided = append(rep.Undecided, r.Fn+": no path reaches the end (vacuous)")
		}
		for _, o := range r.Obls {
			if !o.OK && !o.Untried {
				rep.Failed = append(rep.Failed, o)
			}
		}
	}
	if len(rep.Undecided) > 0 {
		for k := range dropped {
			if r := before[k]; r != nil {
				for _, o := range r.Obls {
					if !o.OK && !o.Untried {
						rep.Failed = append(rep.Failed, o)
					}
				}
			}
		}
	}
	for _, m := range rep.Missing {
		rep.Undecided = append(rep.Undecided, m)
	}
	rep.Failed = append(rep.Failed, races(p, rep, prop)...)
	rep.Millis = time.Since(t0).Milliseconds()
	rep.SolverNS = atomic.LoadInt64(&statSolverNS)
	rep.Queries = atomic.LoadInt64(&statQueries)
	rep.Assume = p.sp.Assume
	rep.Traces = map[string][]string{}
	for _, o := range rep.Failed {
		k := fmt.Sprintf("%s: %s: %s at %s", o.Fn, o.Kind, o.Label, o.Pos)
		if rep.Traces[k] == nil {
			t := append([]string{}, o.trace...)
			if o.err != "" {
				t = append(t, o.err)
			}
			rep.Traces[k] = t
		}
	}
	return rep
}

func matchOnly(key, only string) bool {
	for _, o := range strings.Split(only, ",") {
		if key == o || strings.HasSuffix(key, "."+o) || strings.HasPrefix(o, "~") && strings.Contains(key, o[1:]) {
			return true
		}
	}
	return false
}

// races checks fields without a declared discipline: written while shared
// only if one goroutine or one lock covers every access.
func races(p *Prog, rep *Report, prop string) []*Obl {
	by := map[string][]*Access{}
	for _, r := range rep.Results {
		for _, a := range r.accs {
			by[a.Key] = append(by[a.Key], a)
		}
	}
	var ks []string
	for k := range by {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Obl
	for _, k := range ks {
		pkg := strings.Split(strings.TrimPrefix(k, "GV:"), ".")[0]
		tags := p.sp.Races[pkg]
		if prop != "" {
			ok := false
			for _, t := range tags {
				ok = ok || t == prop
			}
			if !ok {
				continue
			}
		}
		write := false
		roles := map[string]bool{}
		common := map[string]int{}
		var w *Access
		for _, a := range by[k] {
			if a.Write {
				write = true
				w = a
			}
			roles[a.Role] = true
			for _, l := range a.Locks {
				common[l]++
			}
		}
		if !write {
			continue
		}
		if len(roles) == 1 && !roles[""] {
			continue
		}
		locked := false
		for _, n := range common {
			if n == len(by[k]) {
				locked = true
			}
		}
		if locked {
			continue
		}
		out = append(out, &Obl{Fn: w.Fn, Label: k + " is written while shared, under no common discipline", Kind: "race", Tags: tags, Pos: w.Pos})
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("property", "", "")
	only := flag.String("only", "", "")
	limit := flag.Int("limit", 20, "seconds per obligation")
	out := flag.String("out", "", "")
	flag.BoolVar(&debugLoops, "loops", false, "")
	flag.BoolVar(&flagCross, "cross", false, "confirm every obligation with a second solver")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	flagLimit = time.Duration(*limit) * time.Second
	sp, err := LoadSpecs(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	p, err := LoadProg(*repo, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	rep := runAll(p, *prop, *only)
	if *verbose || *out == "" {
		printReport(rep, *verbose)
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if len(rep.Failed)+len(rep.Undecided) > 0 {
		os.Exit(1)
	}
}

func printReport(rep *Report, verbose bool) {
	for _, r := range rep.Results {
		ok, bad := 0, 0
		for _, o := range r.Obls {
			if o.OK {
				ok++
			} else {
				bad++
			}
		}
		fmt.Printf("%-45s %5d ok %4d failed  %4d paths %6d ms %s\n", r.Fn, ok, bad, r.Paths, r.Millis, r.Err)
		if verbose {
			fmt.Println("    used:", r.Used)
			fmt.Println("    inlined:", r.Inlined)
			fmt.Println("    notes:", r.Notes)
			fmt.Println("    skipped:", r.Skipped)
			fmt.Println("    invariants:", r.Invariants)
			fmt.Println("    unreached:", r.Unreached)
		}
	}
	seen := map[string]int{}
	for _, o := range rep.Failed {
		k := fmt.Sprintf("FAILED %s: %s: %s %v at %s %s", o.Fn, o.Kind, o.Label, o.Tags, o.Pos, o.err)
		seen[k]++
		if seen[k] == 1 {
			fmt.Println(k)
			if os.Getenv("GVC_PATH") != "" {
				for _, t := range o.trace {
					fmt.Println("      ", t)
				}
			}
			if dumpDir != "" && o.Script != "" {
				f := fmt.Sprintf("%s/fail_%s.smt2", dumpDir, smtName(o.Fn+"_"+o.Label))
				os.WriteFile(f, []byte(o.Script+"(check-sat)\n"), 0o644)
			}
		}
	}
	for k, n := range seen {
		if n > 1 {
			fmt.Printf("   x%d %s\n", n, k)
		}
	}
	for _, s := range rep.Undecided {
		fmt.Println("UNDECIDED", s)
	}
	if len(rep.Dropped) > 0 {
		fmt.Println("dropped helper contracts:", rep.Dropped)
	}
	fmt.Printf("%d ms, %d queries, solver %d ms\n", rep.Millis, rep.Queries, rep.SolverNS/1e6)
}
