package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopCtx is an active loop on a path.
type loopCtx struct {
	trial bool
	event bool
	head  *State
	back  func(st *State, from *ssa.BasicBlock)
	fr    *Frame
	lp    *loop
}

type cand struct {
	name string
	eval func(s *State, goal bool) *Term
	auto string // region it frames
	idx  []*Term
}

type havocInfo struct {
	base *Term
	idx  []*Term
}

// leaveLoops handles the loops an edge leaves.
func (x *Exec) leaveLoops(fr *Frame, from, to *ssa.BasicBlock, st *State, cont func()) {
	for _, lp := range fr.loops.all {
		if !lp.blocks[from] || lp.blocks[to] {
			continue
		}
		key := loopKey{fr.id, lp.head}
		ctx := st.loops[key]
		if ctx == nil {
			continue
		}
		if ctx.trial {
			return
		}
		if ctx.event && x.spec != nil {
			x.checkSteps(st, ctx, x.pos(lastPos(from)))
		}
		delete(st.loops, key)
	}
	cont()
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func (x *Exec) checkSteps(st *State, ctx *loopCtx, pos string) {
	c := &Ctx{x: x, st: st, old: ctx.head, entry: x.root, vars: x.rootCtx.vars, pkg: x.rootCtx.pkg}
	x.obligeItems(c, x.spec.Step, "step", pos, x.defTags)
}

// headerPhis lists the phis of a block.
func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (x *Exec) havocRegion(st *State, name string, clock *Term) *Term {
	old := x.region(st, name)
	t := x.u.Fresh(name, old.Sort)
	x.wellFormed(t, clock)
	st.reg[name] = t
	if strings.HasPrefix(name, "G:") {
		g := x.p.sp.Ghosts[name[2:]]
		if g != nil && g.Monotone {
			st.assume(x.raised(old, t))
		}
	}
	return t
}

// raised says that boolean (map) b is at least a.
func (x *Exec) raised(a, b *Term) *Term {
	u := x.u
	if a.Sort == SBool {
		return u.Implies(a, b)
	}
	k, v := splitArr(a.Sort)
	i := u.BoundVar("i", k)
	if v == SBool {
		sb := u.mk("select", SBool, b, i)
		sa := u.Select(a, i)
		return u.Quant("forall", []*Term{i}, [][]*Term{{sb}}, u.Implies(sa, sb))
	}
	k2, _ := splitArr(v)
	j := u.BoundVar("j", k2)
	return u.Quant("forall", []*Term{i, j}, nil, u.Implies(u.Select(u.Select(a, i), j), u.Select(u.Select(b, i), j)))
}

func (x *Exec) enterLoop(fr *Frame, lp *loop, from *ssa.BasicBlock, st *State, k Cont) {
	x.budget()
	u := x.u
	x.phis(fr, from, lp.head, st)
	key := loopKey{fr.id, lp.head}
	event := x.spec != nil && len(x.spec.Event) > 0 && len(st.loops) == 0 && st.child == nil && lp.outer == nil && !x.eventSeen
	if event {
		x.eventSeen = true
		x.setGhostZero(st, "ev")
	}
	entry := st.clone()
	pos := x.pos(lastPos(lp.head))
	phis := headerPhis(lp.head)
	maxID := u.next

	invCtx := func(s *State) *Ctx {
		return &Ctx{x: x, st: s, old: entry, entry: x.root, vars: x.rootCtx.vars, pkg: x.rootCtx.pkg}
	}
	if event {
		x.obligeItems(invCtx(st), x.spec.Event, "invariant established", pos, x.defTags)
		x.optional(invCtx(st), "invariant established", pos)
	}

	mod := map[string]bool{}
	for r := range x.extraMod[lp.head] {
		mod[r] = true
	}
	for r := range x.modMemo[lp.head] {
		mod[r] = true
	}
	for r := range entry.reg {
		if strings.HasPrefix(r, "V:") && x.iterOf(fr, lp, entry, r) {
			mod[r] = true
		}
	}
	dirty := map[string]bool{}
	iteOK := map[*ssa.Phi]bool{}
	for _, p := range phis {
		if _, ok := under(p.Type()).(*types.Chan); ok {
			iteOK[p] = true
		}
	}
	stores := map[string][]*Term{} // stable store indices per region
	unpeel := map[string]bool{}

	// a channel variable that stands for something the loop must serve is
	// only disabled when it need not be served
	type sinv struct {
		tags []string
		t    *Term
	}
	serveInv := func(s *State) []sinv {
		if !event {
			return nil
		}
		var out []sinv
		c := invCtx(s)
		for _, sv := range x.spec.Serves {
			if sv.When == nil {
				continue
			}
			for _, e := range sv.E {
				ch := c.eval(e).t
				for _, p := range phis {
					if iteOK[p] && x.term(entry.env[envKey{fr.id, p}]) == ch {
						out = append(out, sinv{sv.Tags, u.Or(u.Eq(x.term(s.env[envKey{fr.id, p}]), ch), u.Not(c.evalBool(sv.When)))})
					}
				}
			}
		}
		return out
	}
	mkHead := func(cs []*cand) *State {
		h := entry.clone()
		clk := u.Fresh("clock", SInt)
		h.assume(u.Cmp("<=", entry.clock, clk))
		h.clock = clk
		var names []string
		for r := range mod {
			names = append(names, r)
		}
		sort.Strings(names)
		for _, r := range names {
			if strings.HasPrefix(r, "V:") {
				h.reg[r] = u.Fresh("visited", x.regSort(r))
				continue
			}
			x.region(entry, r)
			x.havocRegion(h, r, clk)
		}
		for _, p := range phis {
			ev := entry.env[envKey{fr.id, p}]
			var nv Val
			switch {
			case iteOK[p]:
				nv = u.Ite(u.Fresh("still", SBool), x.term(ev), u.Nil(SRef))
			default:
				if _, isT := ev.(*Term); !isT {
					if _, isL := ev.(*Loc); !isL {
						panic(unsupported("loop variable of an unusual kind"))
					}
				}
				t := u.Fresh("phi_"+p.Comment, x.te.sortOf(p.Type()))
				if b := x.bornBy(t, clk); b != nil {
					h.assume(b)
				}
				nv = t
			}
			h.env[envKey{fr.id, p}] = nv
		}
		for c := range dirty {
			h.dirty[c] = true
		}
		if event {
			x.setGhostZero(h, "ev")
			invCtx(h).assumeItems(x.spec.Event)
			if !x.noOpt {
				invCtx(h).assumeItems(x.spec.EventOpt)
			}
			for _, t := range serveInv(h) {
				h.assume(t.t)
			}
		}
		for _, c := range cs {
			if t := c.eval(h, false); t != nil {
				h.assume(t)
			}
		}
		return h
	}

	runBody := func(head *State, trial bool, back func(s *State, from *ssa.BasicBlock), kk Cont) {
		s := head.clone()
		s.loops[key] = &loopCtx{trial: trial, event: event, head: head, back: back, fr: fr, lp: lp}
		x.block(fr, lp.head, s, kk)
	}
	drop := func(*State, Outcome) {}

	// what the loop changes
	quick := x.disc > 0 && x.modMemo[lp.head] != nil && !event
	for round := 0; !quick; round++ {
		if round > 12 {
			panic(unsupported("loop does not stabilize"))
		}
		changed := false
		head := mkHead(nil)
		stores = map[string][]*Term{}
		unpeel = map[string]bool{}
		x.trial++
		x.disc++
		runBody(head, true, func(s *State, from *ssa.BasicBlock) {
			x.phis(fr, from, lp.head, s)
			for r, t := range s.reg {
				h := head.reg[r]
				if h == nil {
					if strings.HasPrefix(r, "V:") {
						continue // an iteration that began inside
					}
					h = x.region(head, r)
				}
				if t == h {
					continue
				}
				if !mod[r] {
					mod[r] = true
					changed = true
				}
				if isArr(t.Sort) && !strings.HasPrefix(r, "V:") {
					idx, ok := x.peel(t, h)
					if !ok {
						unpeel[r] = true
					}
					stores[r] = append(stores[r], idx...)
				}
			}
			for c, v := range s.dirty {
				if v && !head.dirty[c] && !dirty[c] {
					dirty[c] = true
					changed = true
				}
			}
			for l, o := range s.held {
				if head.held[l] != o {
					x.lockImbalance(s, l, pos)
				}
			}
			for l := range head.held {
				if s.held[l] == nil {
					x.lockImbalance(s, l, pos)
				}
			}
			if len(s.defers[fr.id]) != len(head.defers[fr.id]) {
				panic(unsupported("defer in a loop"))
			}
			for _, p := range phis {
				if iteOK[p] {
					v := x.term(s.env[envKey{fr.id, p}])
					iv := x.term(entry.env[envKey{fr.id, p}])
					if !x.prove(s, u.Or(u.Eq(v, iv), u.Eq(v, u.Nil(SRef)))) {
						iteOK[p] = false
						changed = true
					}
				}
			}
		}, drop)
		x.trial--
		x.disc--
		if debugLoops {
			fmt.Printf("  [%s %s] trial %d discovery round %d: %d queries so far, steps %d\n", x.name, pos, x.trial, round, x.nq, x.steps)
		}
		if !changed {
			break
		}
	}
	memo := map[string]bool{}
	for r := range mod {
		if !strings.HasPrefix(r, "V:") {
			memo[r] = true
		}
	}
	x.modMemo[lp.head] = memo

	// candidate invariants
	var cs []*cand
	if x.disc == 0 && !event {
		cs = x.candidates(fr, lp, entry, mod, stores, unpeel, maxID, event)
		mkey := loopSite(fr, lp)
		if good := x.candMemo[mkey]; good != nil {
			var keep []*cand
			for _, c := range cs {
				if good[c.name] {
					keep = append(keep, c)
				}
			}
			cs = keep
		}
		var keep []*cand
		var ts []*Term
		for _, c := range cs {
			if t := c.eval(entry, true); t != nil {
				keep = append(keep, c)
				ts = append(ts, t)
			}
		}
		cs = keep
		if !x.prove(entry, u.And(ts...)) {
			keep = nil
			for i, c := range cs {
				if x.prove(entry, ts[i]) {
					keep = append(keep, c)
				}
			}
			cs = keep
		}
	}
	for round := 0; len(cs) > 0; round++ {
		if round > 12 {
			cs = nil
			break
		}
		bad := map[*cand]bool{}
		head := mkHead(cs)
		x.trial++
		runBody(head, true, func(s *State, from *ssa.BasicBlock) {
			x.phis(fr, from, lp.head, s)
			var ts []*Term
			var cc []*cand
			for _, c := range cs {
				if bad[c] {
					continue
				}
				t := c.eval(s, true)
				if t == nil {
					bad[c] = true
					continue
				}
				ts = append(ts, t)
				cc = append(cc, c)
			}
			if x.prove(s, u.And(ts...)) {
				return
			}
			for i, t := range ts {
				if !x.prove(s, t) {
					bad[cc[i]] = true
					if debugLoops {
						fmt.Printf("  [%s %s] dropped candidate %s\n", x.name, pos, cc[i].name)
					}
				}
			}
		}, drop)
		x.trial--
		if debugLoops {
			fmt.Printf("  [%s %s] trial %d houdini round %d: %d queries so far, steps %d, %d of %d bad\n", x.name, pos, x.trial, round, x.nq, x.steps, len(bad), len(cs))
		}
		if len(bad) == 0 {
			break
		}
		var keep []*cand
		for _, c := range cs {
			if !bad[c] {
				keep = append(keep, c)
			}
		}
		cs = keep
	}
	if x.disc == 0 && !event {
		good := map[string]bool{}
		for _, c := range cs {
			good[c.name] = true
		}
		x.candMemo[loopSite(fr, lp)] = good
	}
	if debugLoops && x.trial == 0 {
		var ns []string
		for _, c := range cs {
			ns = append(ns, c.name)
		}
		var ms []string
		for r := range mod {
			ms = append(ms, r)
		}
		sort.Strings(ms)
		fmt.Printf("  [%s %s] loop: mod %v, invariants %v\n", x.name, pos, ms, ns)
	}
	if x.trial == 0 {
		for _, c := range cs {
			x.loopInvs[fmt.Sprintf("%s %s", pos, c.name)] = true
		}
	}

	head := mkHead(cs)
	for _, c := range cs {
		if c.auto != "" {
			x.havocOf[head.reg[c.auto]] = &havocInfo{base: entry.reg[c.auto], idx: c.idx}
		}
	}
	runBody(head, false, func(s *State, from *ssa.BasicBlock) {
		x.phis(fr, from, lp.head, s)
		if x.disc == 0 {
			for r, t := range s.reg {
				h := head.reg[r]
				if h == nil {
					if strings.HasPrefix(r, "V:") {
						continue
					}
					h = x.region(head, r)
				}
				if t != h && !mod[r] {
					panic(unforeseen{lp.head, r})
				}
			}
			for c, v := range s.dirty {
				if v && !head.dirty[c] {
					panic(unsupported("a loop leaves " + c + " dirty, which was not foreseen"))
				}
			}
		}
		if event {
			p := x.pos(lastPos(from))
			ctx := s.loops[key]
			x.checkSteps(s, ctx, p)
			x.checkDirty(s, p)
			// the invariant must hold again
			c := invCtx(s)
			c.old = head
			x.obligeItems(c, x.spec.Event, "invariant preserved", p, x.defTags)
			x.optional(c, "invariant preserved", p)
			for _, t := range serveInv(s) {
				x.oblige(s, t.tags, "invariant preserved", "what must be served is not disabled", t.t, p)
			}
			x.reached++
		}
	}, k)
}

// optional obliges invariants that the function may do without: if one fails,
// and nothing else does, the function is verified without them.
func (x *Exec) optional(c *Ctx, kind, pos string) {
	if x.noOpt {
		return
	}
	n := len(x.obls)
	x.obligeItems(c, x.spec.EventOpt, kind, pos, x.defTags)
	for _, o := range x.obls[n:] {
		o.opt = true
	}
}

// iterOf reports whether region r is what the range loop lp has visited.
func (x *Exec) iterOf(fr *Frame, lp *loop, st *State, r string) bool {
	for _, in := range lp.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := st.env[envKey{fr.id, nx.Iter}].(*Iter); ok {
				return r == fmt.Sprintf("V:%d", it.id)
			}
		}
	}
	return false
}

// loopSite names a loop and the calls that led to it.
func loopSite(fr *Frame, lp *loop) string {
	s := fmt.Sprintf("%s#%d", fr.fn.String(), lp.head.Index)
	for c := fr.caller; c != nil; c = c.caller {
		s += "<" + c.fn.String()
	}
	return s
}

func (x *Exec) lockImbalance(st *State, lock, pos string) {
	saved := x.trial
	x.trial = 0
	x.fault(st, x.lockTags(lock), "lock", "lock state differs between iterations of a loop", "", pos)
	x.trial = saved
}

func (x *Exec) setGhostZero(st *State, name string) {
	if g := x.p.sp.Ghosts[name]; g != nil {
		r := x.ghostRegion(g)
		switch x.regSort(r) {
		case SInt:
			st.reg[r] = x.u.Int(0)
		}
	}
}

// peel collects the indices at which t differs from base.
func (x *Exec) peel(t, base *Term) ([]*Term, bool) {
	var idx []*Term
	for n := 0; t != base; n++ {
		if n > 2000 {
			return nil, false
		}
		if t.Op == "ite" {
			i1, ok1 := x.peel(t.Args[1], base)
			i2, ok2 := x.peel(t.Args[2], base)
			return append(append(idx, i1...), i2...), ok1 && ok2
		}
		if t.Op == "store" {
			idx = append(idx, t.Args[1])
			t = t.Args[0]
			continue
		}
		if h := x.havocOf[t]; h != nil {
			idx = append(idx, h.idx...)
			t = h.base
			continue
		}
		return idx, false
	}
	return idx, true
}

// stable reports whether a term mentions only symbols older than maxID.
func stable(t *Term, maxID int, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if len(t.Args) == 0 {
		return t.id <= maxID || t.lit
	}
	for _, a := range t.Args {
		if !stable(a, maxID, seen) {
			return false
		}
	}
	return true
}

func safeEval(f func() *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specError:
				if debugLoops {
					fmt.Println("   candidate:", e.msg)
				}
				t = nil
				return
			case unsupported:
				t = nil
				return
			}
			panic(r)
		}
	}()
	return f()
}

// candidates proposes loop invariants.
func (x *Exec) candidates(fr *Frame, lp *loop, entry *State, mod map[string]bool, stores map[string][]*Term, unpeel map[string]bool, maxID int, event bool) []*cand {
	u := x.u
	var out []*cand
	// unchanged except at the written places, and in new objects
	var names []string
	for r := range mod {
		names = append(names, r)
	}
	sort.Strings(names)
	for _, r := range names {
		s := x.regSort(r)
		if strings.HasPrefix(r, "V:") || !isArr(s) {
			continue
		}
		ks, _ := splitArr(s)
		var idx []*Term
		seen := map[*Term]bool{}
		ok := true
		for _, i := range stores[r] {
			if seen[i] || (i.fresh > 0 && !stable(i, maxID, map[*Term]bool{})) {
				continue
			}
			seen[i] = true
			if !stable(i, maxID, map[*Term]bool{}) {
				ok = false
				continue
			}
			idx = append(idx, i)
		}
		_ = ok
		r, idx := r, idx
		out = append(out, &cand{name: "frame " + r, auto: r, idx: idx, eval: func(st *State, goal bool) *Term {
			var i *Term
			if goal {
				i = u.Fresh("sk", ks)
			} else {
				i = u.BoundVar("i", ks)
			}
			var ante []*Term
			if ks == SRef {
				ante = append(ante, u.Cmp("<=", x.birth(i), entry.clock))
			}
			for _, w := range idx {
				ante = append(ante, u.Not(u.Eq(i, w)))
			}
			cur, old := x.region(st, r), x.region(entry, r)
			body := u.Implies(u.And(ante...), u.Eq(u.Select(cur, i), u.Select(old, i)))
			if goal {
				return body
			}
			return u.Forall([]*Term{i}, []*Term{u.mk("select", u.Select(cur, i).Sort, cur, i)}, body)
		}})
	}
	// counters
	for _, p := range headerPhis(lp.head) {
		p := p
		iv, _ := entry.env[envKey{fr.id, p}].(*Term)
		if iv == nil || iv.Sort != SInt {
			continue
		}
		get := func(s *State) *Term { return x.term(s.env[envKey{fr.id, p}]) }
		out = append(out, &cand{name: "lower bound", eval: func(s *State, goal bool) *Term { return u.Cmp(">=", get(s), iv) }})
		for b := range lp.blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || (bo.Op != token.LSS && bo.Op != token.LEQ && bo.Op != token.NEQ && bo.Op != token.GEQ) {
					continue
				}
				off := int64(-1)
				if bo.X == ssa.Value(p) {
					off = 0
				} else if a, ok := bo.X.(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ssa.Value(p) {
					if c, ok := a.Y.(*ssa.Const); ok && c.Int64() == 1 {
						off = 1
					}
				}
				if off < 0 {
					continue
				}
				var lim *Term
				if c, ok := bo.Y.(*ssa.Const); ok {
					lim = x.term(x.constVal(c))
				} else if v, ok := entry.env[envKey{fr.id, bo.Y}].(*Term); ok {
					lim = v
				} else if cl, ok := bo.Y.(*ssa.Call); ok {
					// len(...) computed inside the loop
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if v, ok := entry.env[envKey{fr.id, cl.Call.Args[0]}].(*Term); ok && v.Sort == SSlice {
							lim = x.slen(v)
						}
					}
				}
				if lim == nil || lim.Sort != SInt {
					continue
				}
				out = append(out, &cand{name: "upper bound", eval: func(s *State, goal bool) *Term {
					return u.Cmp("<=", u.Arith("+", get(s), u.Int(off)), lim)
				}})
			}
		}
	}
	// what a range has visited is in the map
	for _, in := range lp.head.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		it, ok := entry.env[envKey{fr.id, nx.Iter}].(*Iter)
		if !ok || it.m == nil {
			continue
		}
		out = append(out, &cand{name: "visited", eval: func(s *State, goal bool) *Term {
			vis := x.region(s, fmt.Sprintf("V:%d", it.id))
			ks, _ := splitArr(vis.Sort)
			k := u.BoundVar("k", ks)
			if goal {
				k = u.Fresh("sk", ks)
			}
			sel := u.Select(vis, k)
			b := u.Implies(sel, u.Select(x.mapDom(s, it.mt, it.m), k))
			if goal {
				return b
			}
			return u.Forall([]*Term{k}, []*Term{sel}, b)
		}})
	}
	// phi unchanged or an option of its initial value
	// contract candidates
	add := func(c *Cand, vars map[string]SV, pkg string) {
		var inst func(i int, vs map[string]SV)
		inst = func(i int, vs map[string]SV) {
			if i == len(c.Locals) {
				out = append(out, &cand{name: c.Pos, eval: func(s *State, goal bool) *Term {
					return safeEval(func() *Term {
						v2 := map[string]SV{}
						for k, v := range vs {
							v2[k] = v
						}
						for k, v := range x.loopVars(fr, lp, s) {
							v2[k] = v
						}
						for _, l := range c.Locals {
							if v2[l.Name].t == nil {
								sv := vs["@"+l.Name]
								_ = sv
							}
						}
						// locals are re-read: phis change
						for k, v := range vs {
							if strings.HasPrefix(k, "@") {
								ev := s.env[envKey{fr.id, x.localVal[v.t]}]
								if ev == nil {
									panic(specError{"no value"})
								}
								v2[k[1:]] = SV{t: x.term(ev), typ: v.typ}
							}
						}
						cx := &Ctx{x: x, st: s, old: entry, entry: x.root, vars: v2, goal: goal, pkg: pkg}
						return cx.evalBool(c.E)
					})
				}})
				return
			}
			l := c.Locals[i]
			want := x.p.lookupType(l.Type, pkg)
			if want == nil {
				return
			}
			n := 0
			for _, v := range x.localsOf(fr, entry, lp) {
				ty := v.Type()
				if !types.Identical(normType(ty), normType(want)) {
					continue
				}
				n++
				if n > 6 {
					break
				}
				mark := u.Const("local!"+fmt.Sprint(fr.fn.Name(), v.Name()), SRef)
				x.localVal[mark] = v
				vs2 := map[string]SV{}
				for k, vv := range vs {
					vs2[k] = vv
				}
				vs2["@"+l.Name] = SV{t: mark, typ: ty}
				inst(i+1, vs2)
			}
		}
		inst(0, vars)
	}
	pkgOf := func(fn *ssa.Function) string {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Pkg != nil {
			return fn.Pkg.Pkg.Name()
		}
		return ""
	}
	pkg := pkgOf(fr.fn)
	if f := x.p.specOf(fr.fn); f != nil {
		vars := map[string]SV{}
		for i, n := range f.Params {
			if i < len(fr.fn.Params) {
				if t, ok := entry.env[envKey{fr.id, fr.fn.Params[i]}].(*Term); ok {
					vars[n] = SV{t: t, typ: fr.fn.Params[i].Type()}
				}
			}
		}
		for _, c := range f.Cands {
			if len(c.Tags) > 0 && !x.wanted(c.Tags) {
				continue
			}
			add(c, vars, pkg)
		}
	}
	if !event {
		vars := map[string]SV{}
		for n, v := range x.rootCtx.vars {
			vars["$"+n] = v
		}
		for _, c := range x.p.sp.Pools[pkg] {
			if len(c.Tags) > 0 && !x.wanted(c.Tags) {
				continue
			}
			add(c, vars, pkg)
		}
	}
	return out
}

// localsOf lists the values of a frame that a candidate may talk about.
func (x *Exec) localsOf(fr *Frame, st *State, lp *loop) []ssa.Value {
	var out []ssa.Value
	for k, v := range st.env {
		if k.frame != fr.id {
			continue
		}
		if _, ok := v.(*Term); !ok {
			if _, ok := v.(*Loc); !ok {
				continue
			}
		}
		out = append(out, k.v)
	}
	sort.Slice(out, func(i, j int) bool {
		pi, pj := rank(out[i], lp), rank(out[j], lp)
		if pi != pj {
			return pi < pj
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

func rank(v ssa.Value, lp *loop) int {
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == lp.head {
			return 0
		}
	case *ssa.Parameter, *ssa.FreeVar:
		return 1
	}
	return 2
}

// reload evaluates an operand that is computed inside a loop by loads only.
func (x *Exec) reload(fr *Frame, s *State, v ssa.Value, depth int) Val {
	if depth > 5 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		p := x.reload(fr, s, v.X, depth+1)
		if p == nil {
			return nil
		}
		return x.load(s, p, deref(v.X.Type()))
	case *ssa.FieldAddr:
		p := x.reload(fr, s, v.X, depth+1)
		if p == nil {
			return nil
		}
		return x.fieldAddr(s, p, v.X.Type(), v.Field)
	}
	if r, ok := s.env[envKey{fr.id, v}]; ok {
		return r
	}
	return nil
}

// loopVars gives the values of $visited, $n, $seq and $len.
func (x *Exec) loopVars(fr *Frame, lp *loop, s *State) map[string]SV {
	u := x.u
	out := map[string]SV{}
	for _, in := range lp.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := s.env[envKey{fr.id, nx.Iter}].(*Iter); ok {
				out["$visited"] = SV{t: x.region(s, fmt.Sprintf("V:%d", it.id))}
				out["$m"] = SV{t: it.m, typ: it.mt}
				return out
			}
		}
	}
	for _, p := range headerPhis(lp.head) {
		ev, ok := s.env[envKey{fr.id, p}].(*Term)
		if !ok || ev.Sort != SInt {
			continue
		}
		// init value
		var init *ssa.Const
		var step ssa.Value
		for i, e := range p.Edges {
			if lp.blocks[lp.head.Preds[i]] {
				step = e
			} else if c, ok := e.(*ssa.Const); ok {
				init = c
			}
		}
		bo, ok := step.(*ssa.BinOp)
		if init == nil || !ok || bo.Op != token.ADD || bo.X != ssa.Value(p) {
			continue
		}
		n := u.Arith("-", ev, x.term(x.constVal(init)))
		out["$n"] = SV{t: n, typ: types.Typ[types.Int]}
		for _, b := range fr.fn.Blocks {
			if !lp.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || (ia.Index != ssa.Value(p) && ia.Index != ssa.Value(bo)) {
					continue
				}
				st, ok := under(ia.X.Type()).(*types.Slice)
				if !ok {
					continue
				}
				sv, ok := x.reload(fr, s, ia.X, 0).(*Term)
				if !ok {
					continue
				}
				out["$seq"] = SV{t: sv, typ: ia.X.Type()}
				out["$visited"] = SV{t: x.mem(x.elems(s, st.Elem(), sv), n)}
				out["$len"] = SV{t: x.slen(sv), typ: types.Typ[types.Int]}
				return out
			}
		}
	}
	return out
}
