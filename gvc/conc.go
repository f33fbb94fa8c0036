package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Access is one access to a field without a declared discipline.
type Access struct {
	Key   string
	Write bool
	Role  string
	Locks []string
	Pos   string
	Fn    string
}

type spawnRec struct {
	spec  *FuncSpec
	args  []Val
	fn    *ssa.Function
	pos   string
	trial int
}

type factKey struct {
	f  *ChildFact
	w  *Term
	ch *Term
}

// childCtx collects what a goroutine that is executed in place does.
type childCtx struct {
	parent *childCtx
	trial  int
	base   int // path condition length at the go statement
	caps   map[*Term]*chanInfo
	capOrd []*Term
	need   map[string]bool
	avail  map[string]*Term
	spawns []spawnRec
	facts  map[factKey]bool
	dones  map[int]bool
	pre    map[*Term]bool // channels that were there before
	waits  bool
	exits  int
	blocks int
	pend   map[factKey][][]*Term // facts that rest on a channel being watched
}

type pending struct {
	fk factKey
	cs [][]*Term
}

type listen struct {
	ch     *Term
	send   bool
	prompt bool
}

// ---- access policies

func (x *Exec) guardOf(key string) *Guard {
	for _, g := range x.p.sp.Guards {
		for _, f := range g.Fields {
			if f == key {
				return g
			}
		}
	}
	return nil
}

func (x *Exec) lockTags(lock string) []string {
	for _, g := range x.p.sp.Guards {
		if g.Lock == lock {
			return g.Tags
		}
	}
	return x.defTags
}

func (x *Exec) access(st *State, p Val, t types.Type, write bool, pos token.Pos) {
	var l *Loc
	switch v := p.(type) {
	case *Loc:
		l = v
	case *Term:
		l = x.locOf[v]
		if l == nil {
			if s, ok := x.te.transparentStruct(t); ok {
				if x.private(st, v) {
					return
				}
				for i := 0; i < s.NumFields(); i++ {
					x.accessKey(st, v, structName(t)+"."+s.Field(i).Name(), write, pos)
				}
			}
			return
		}
	}
	if l == nil || l.field == "" || l.ref == nil {
		if l != nil && l.ref == nil && strings.HasPrefix(l.region, "GV:") && write {
			x.accs = append(x.accs, &Access{Key: l.region, Write: true, Role: st.role, Pos: x.pos(pos), Fn: x.name})
		}
		return
	}
	if x.private(st, l.ref) {
		return
	}
	x.accessKey(st, l.ref, l.owner+"."+l.field, write, pos)
}

func (x *Exec) accessMap(st *State, m *Term, write bool, pos token.Pos) {
	if x.private(st, m) {
		return
	}
	pr := x.prov[m]
	if pr == nil || (pr.owner != nil && x.private(st, pr.owner)) {
		return
	}
	x.accessKey(st, pr.owner, pr.key, write, pos)
}

func (x *Exec) accessKey(st *State, ref *Term, key string, write bool, pos token.Pos) {
	p := x.pos(pos)
	if o := x.p.sp.Onces[key]; o != nil {
		x.fault(st, o.Tags, "once", key+" is only accessed by atomic operations", "", p)
		return
	}
	if g := x.guardOf(key); g != nil {
		if st.role == g.Owner {
			if write && st.held[g.Lock] == nil {
				x.fault(st, g.Tags, "lock", key+" is written without holding "+g.Lock, "", p)
			}
			if write && g.Notify != "" {
				st.dirty[g.Notify] = true
			}
			return
		}
		if write {
			x.fault(st, g.Tags, "lock", key+" is written outside goroutine "+g.Owner, "", p)
		}
		if st.held[g.Lock] == nil {
			x.fault(st, g.Tags, "lock", key+" is read without holding "+g.Lock, "", p)
		}
		return
	}
	for _, c := range x.p.sp.Confines {
		for _, f := range c.Fields {
			if f != key {
				continue
			}
			if st.role == c.Owner {
				return
			}
			if c.Dead != nil && ref != nil && !write {
				i := strings.LastIndex(key, ".")
				ty := x.p.lookupType(key[:i], "")
				cx := &Ctx{x: x, st: st, old: st, entry: x.root, vars: map[string]SV{c.Self: {t: ref, typ: types.NewPointer(ty)}}, pkg: strings.Split(key, ".")[0]}
				x.oblige(st, c.Tags, "confinement", key+" is read outside goroutine "+c.Owner+" only when that has ended", cx.evalBool(c.Dead), p)
				return
			}
			x.fault(st, c.Tags, "confinement", key+" is accessed outside goroutine "+c.Owner, "", p)
			return
		}
	}
	if tags, ok := x.p.sp.Immut[key]; ok {
		if w := x.p.sp.ImmUnless[key]; write && w != nil && ref != nil {
			i := strings.LastIndex(key, ".")
			ty := x.p.lookupType(key[:i], "")
			cx := &Ctx{x: x, st: st, old: st, entry: x.root, vars: map[string]SV{w.Self: {t: ref, typ: types.NewPointer(ty)}}, pkg: strings.Split(key, ".")[0]}
			x.oblige(st, tags, "immutability", key+" is written only before its object is shared", cx.evalBool(w.E), p)
		} else if write {
			x.fault(st, tags, "immutability", key+" is written after its object was shared", "", p)
		}
		return
	}
	if x.trial == 0 {
		a := &Access{Key: key, Write: write, Role: st.role, Pos: p, Fn: x.name}
		for l := range st.held {
			a.Locks = append(a.Locks, l)
		}
		x.accs = append(x.accs, a)
	}
}

// ---- locks

func (x *Exec) ownerOf(lock string) string {
	for _, g := range x.p.sp.Guards {
		if g.Lock == lock {
			return g.Owner
		}
	}
	return ""
}

func (x *Exec) lock(st *State, l *Loc, pos token.Pos) {
	key := l.owner + "." + l.field
	if st.held[key] != nil {
		x.fault(st, x.lockTags(key), "lock", "lock "+key+" is acquired while it is held", "", x.pos(pos))
		return
	}
	st.held[key] = l.ref
	if st.role != x.ownerOf(key) {
		x.enterMonitor(st, key, l.ref)
	}
}

// enterMonitor: guarded state as another goroutine finds it.
func (x *Exec) enterMonitor(st *State, key string, ref *Term) {
	clk := x.u.Fresh("clock", SInt)
	st.assume(x.u.Cmp("<=", st.clock, clk))
	st.clock = clk
	for _, g := range x.p.sp.Guards {
		if g.Lock != key {
			continue
		}
		for _, f := range g.Fields {
			i := strings.LastIndex(f, ".")
			t := x.p.lookupType(f[:i], "")
			if t == nil {
				continue
			}
			s, _ := x.te.transparentStruct(t)
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() != f[i+1:] {
					continue
				}
				x.havocRegion(st, x.fieldRegion(t, j), clk)
				if _, ok := under(s.Field(j).Type()).(*types.Map); ok {
					d, v := x.mapRegions(s.Field(j).Type())
					x.havocRegion(st, d, clk)
					x.havocRegion(st, v, clk)
				}
			}
		}
	}
	if m := x.p.sp.Monitors[key]; m != nil {
		c := x.monitorCtx(st, m, ref)
		c.assumeItems(m.Inv)
		for _, e := range m.Assume {
			if t := safeEval(func() *Term { return c.evalBool(e) }); t != nil {
				st.assume(t)
			}
		}
	}
}

func (x *Exec) monitorCtx(st *State, m *Monitor, ref *Term) *Ctx {
	i := strings.LastIndex(m.Lock, ".")
	t := x.p.lookupType(m.Lock[:i], "")
	return &Ctx{x: x, st: st, old: st, entry: x.root, vars: map[string]SV{m.Self: {t: ref, typ: types.NewPointer(t)}}, pkg: strings.Split(m.Lock, ".")[0]}
}

func (x *Exec) unlock(st *State, l *Loc, pos token.Pos) bool {
	key := l.owner + "." + l.field
	if st.held[key] == nil {
		if st.child != nil && st.child.avail[key] != nil {
			st.child.need[key] = true
			return false
		}
		x.fault(st, x.lockTags(key), "lock", "lock "+key+" is released without being held", "", x.pos(pos))
		return true
	}
	if st.role == x.ownerOf(key) && st.role != "" {
		if m := x.p.sp.Monitors[key]; m != nil {
			x.obligeItems(x.monitorCtx(st, m, l.ref), m.Inv, "monitor invariant", x.pos(pos), x.lockTags(key))
		}
	}
	delete(st.held, key)
	x.publish(st)
	return true
}

func (x *Exec) condWait(st *State, l *Loc, pos token.Pos) {
	lock := x.p.sp.Conds[l.owner+"."+l.field]
	if lock == "" {
		panic(unsupported("cond without a declared lock"))
	}
	if st.held[lock] == nil {
		if st.child != nil && st.child.avail[lock] != nil {
			st.child.need[lock] = true
			st.assume(x.u.False())
			return
		}
		x.fault(st, x.lockTags(lock), "lock", "waiting on a condition without holding its lock", "", x.pos(pos))
		return
	}
	if w := x.p.sp.CondWaits[l.owner+"."+l.field]; w != nil {
		i := strings.LastIndex(lock, ".")
		c := &Ctx{x: x, st: st, old: st, entry: x.root, vars: map[string]SV{}, pkg: strings.Split(lock, ".")[0]}
		for n, v := range x.rootCtx.vars {
			c.vars["$"+n] = v
		}
		c.vars[w.Self] = SV{t: st.held[lock], typ: types.NewPointer(x.p.lookupType(lock[:i], ""))}
		x.obligeItems(c, w.Req, waitsKind, x.pos(pos), x.lockTags(lock))
	}
	x.publish(st)
	x.yield(st)
	x.enterMonitor(st, lock, st.held[lock])
}

func (x *Exec) checkDirty(st *State, pos string) {
	var cs []string
	for c, d := range st.dirty {
		if d {
			cs = append(cs, c)
		}
	}
	sort.Strings(cs)
	for _, c := range cs {
		var tags []string
		for _, g := range x.p.sp.Guards {
			if g.Notify == c {
				tags = g.Tags
			}
		}
		x.fault(st, append([]string{"C06"}, tags...), "notification", "changes are announced on "+c, "", pos)
		delete(st.dirty, c)
	}
}

// ---- wait groups

func (x *Exec) wgTags() []string {
	for _, t := range x.p.sp.WGs {
		return t
	}
	return x.defTags
}

func (x *Exec) wgAdd(st *State, n int, pos token.Pos) {
	if st.tok == 0 {
		if st.child != nil {
			st.wgAddAt = append(st.wgAddAt[:len(st.wgAddAt):len(st.wgAddAt)], st.tokD)
		} else if st.wgWaiter {
			x.fault(st, x.wgTags(), "waitgroup", "the wait group is added to when it may already have completed", "", x.pos(pos))
		}
	}
	st.tok += n
}

func (x *Exec) wgDone(st *State, pos token.Pos) {
	st.tokD++
	if g := x.p.sp.Ghosts["released"]; g != nil {
		st.reg[x.ghostRegion(g)] = x.u.True()
	}
	if st.child == nil {
		st.tok--
		if st.tok < 0 {
			x.fault(st, x.wgTags(), "waitgroup", "a wait group is released more often than it was added to", "", x.pos(pos))
		}
		return
	}
	x.childFactsExit(st)
}

func (x *Exec) childFactsExit(st *State) {
	ch := st.child
	if x.trial != ch.trial {
		return
	}
	for fk, ok := range ch.facts {
		if !ok || fk.f.Exit == nil || x.factHolds(st, fk, fk.f.Exit) {
			continue
		}
		// it may depend on what a goroutine started later does
		if g := x.p.sp.Ghosts["watched"]; g != nil && fk.w != nil && fk.ch == nil {
			r := x.ghostRegion(g)
			var alts []*Term
			for c := range ch.pre {
				s := st.clone()
				s.reg[r] = x.u.Store(x.region(s, r), c, fk.w)
				if x.factHolds(s, fk, fk.f.Exit) {
					alts = append(alts, c)
				}
			}
			if len(alts) > 0 {
				ch.pend[fk] = append(ch.pend[fk], alts)
				continue
			}
		}
		ch.facts[fk] = false
	}
}

func (x *Exec) factHolds(st *State, fk factKey, e *Expr) bool {
	if st.dead() || !x.feasible(st) {
		return true
	}
	c := &Ctx{x: x, st: st, old: st, entry: x.root, vars: map[string]SV{}, pkg: x.rootCtx.pkg}
	if fk.w != nil {
		c.vars[fk.f.Var] = SV{t: fk.w}
	}
	if fk.ch != nil {
		c.vars[fk.f.Chan] = SV{t: fk.ch}
	}
	for n, v := range x.rootCtx.vars {
		if _, ok := c.vars[n]; !ok {
			c.vars["$"+n] = v
		}
	}
	t := safeEval(func() *Term { return c.evalBool(e) })
	return t != nil && x.prove(st, t)
}

// ---- blocking

func (x *Exec) blockAt(st *State, pos string, ls []listen, vars map[string]SV) {
	var locks []string
	for l := range st.held {
		locks = append(locks, l)
	}
	sort.Strings(locks)
	for _, l := range locks {
		x.fault(st, x.lockTags(l), "lock", "blocking operation while holding "+l, "", pos)
	}
	prompt := len(ls) > 0
	for _, l := range ls {
		prompt = prompt && l.prompt
	}
	if st.child != nil {
		if x.trial == st.child.trial {
			x.curListens = ls
			st.child.blocks++
			for fk, ok := range st.child.facts {
				if ok && fk.f.Block != nil && !x.factHolds(st, fk, fk.f.Block) {
					st.child.facts[fk] = false
				}
			}
			x.curListens = nil
		}
	} else if x.spec != nil {
		if !prompt {
			x.checkDirty(st, pos)
		}
		c := &Ctx{x: x, st: st, old: x.root, entry: x.root, vars: x.rootCtx.vars, pkg: x.rootCtx.pkg}
		if !prompt {
			if len(x.spec.Serves) == 0 && len(x.spec.Escapes) == 0 && !x.spec.Blocks {
				x.fault(st, x.defTags, "blocking", "the function does not block", "", pos)
			}
			for _, s := range x.spec.Serves {
				when := x.u.True()
				if s.When != nil {
					when = c.evalBool(s.When)
				}
				for _, e := range s.E {
					ch := c.eval(e)
					var eqs []*Term
					for _, l := range ls {
						if !l.send {
							eqs = append(eqs, x.u.Eq(l.ch, ch.t))
						}
					}
					x.oblige(st, s.Tags, "liveness", "every wait also serves "+exprString(e), x.u.Implies(when, x.u.Or(eqs...)), pos)
				}
			}
			for _, s := range x.spec.Escapes {
				when := x.u.True()
				if s.When != nil {
					when = c.evalBool(s.When)
				}
				var eqs []*Term
				names := ""
				for _, e := range s.E {
					ch := c.eval(e)
					names += " " + exprString(e)
					for _, l := range ls {
						eqs = append(eqs, x.u.Eq(l.ch, ch.t))
					}
				}
				x.oblige(st, s.Tags, "liveness", "every wait can be ended by"+names, x.u.Implies(when, x.u.Or(eqs...)), pos)
			}
			x.obligeItems(c, x.spec.Waits, waitsKind, pos, x.defTags)
		}
	}
	x.publish(st)
	x.yield(st)
}

func exprString(e *Expr) string {
	switch e.Kind {
	case "field":
		return exprString(e.Args[0]) + "." + e.Name
	case "call":
		var as []string
		for _, a := range e.Args {
			as = append(as, exprString(a))
		}
		return e.Name + "(" + strings.Join(as, ",") + ")"
	case "addr":
		return "&" + exprString(e.Args[0])
	}
	return e.Name
}

// yield lets other goroutines act.
func (x *Exec) yield(st *State) {
	for _, n := range x.p.sp.GhostOrd {
		g := x.p.sp.Ghosts[n]
		if !g.Shared {
			continue
		}
		r := x.ghostRegion(g)
		x.region(st, r)
		x.havocRegion(st, r, st.clock)
	}
	x.stillAlive(st)
}

// stillAlive: a tomb is not dead while a goroutine it tracks is running.
func (x *Exec) stillAlive(st *State) {
	if g := x.p.sp.Ghosts["dead"]; g != nil && st.tomb != nil {
		st.assume(x.u.Not(x.u.Select(x.region(st, x.ghostRegion(g)), st.tomb)))
	}
}

// ---- channels

func (x *Exec) chanSpec(ch *Term) (*ChanSpec, SV) {
	if len(ch.Args) >= 1 {
		if c := x.p.sp.Chans["fn:"+ch.Op]; c != nil {
			return c, SV{t: ch.Args[len(ch.Args)-1]}
		}
	}
	if p := x.prov[ch]; p != nil {
		if c := x.p.sp.Chans[p.key]; c != nil {
			i := strings.LastIndex(p.key, ".")
			ty := x.p.lookupType(p.key[:i], "")
			sv := SV{t: p.owner}
			if ty != nil {
				sv.typ = types.NewPointer(ty)
			}
			return c, sv
		}
	}
	return nil, SV{}
}

func chanElem(t types.Type) types.Type { return under(t).(*types.Chan).Elem() }

func (x *Exec) chanCtx(st *State, c *ChanSpec, self SV, ch *Term, msg SV) *Ctx {
	vars := map[string]SV{c.Msg: msg, "$ch": {t: ch}}
	for n, v := range x.rootCtx.vars {
		vars["$"+n] = v
	}
	if self.t != nil {
		vars[c.Self] = self
	}
	pkg := x.rootCtx.pkg
	if !strings.HasPrefix(c.Key, "fn:") {
		pkg = strings.Split(c.Key, ".")[0]
	}
	return &Ctx{x: x, st: st, old: st, entry: x.root, vars: vars, pkg: pkg}
}

func (x *Exec) markRecv(st *State, ch *Term) {
	if g := x.p.sp.Ghosts["recvd"]; g != nil {
		r := x.ghostRegion(g)
		st.reg[r] = x.u.Store(x.region(st, r), ch, x.u.True())
	}
}

// recvEffect: one value has been received from ch.
func (x *Exec) recvEffect(st *State, ch *Term, et types.Type, pos string, k func(*State, Val, *Term)) {
	u := x.u
	if ch.Op == "deadch" && len(ch.Args) == 1 && ch.Args[0] == st.tomb {
		return // not while this goroutine is running
	}
	if c, self := x.chanSpec(ch); c != nil {
		x.used["chan:"+c.Key] = true
		var v *Term
		ok := u.True()
		if c.ClosedOnly {
			v = x.te.zero(et)
			ok = u.False()
		} else {
			clk := u.Fresh("clock", SInt)
			st.assume(u.Cmp("<=", st.clock, clk))
			st.clock = clk
			v = u.Fresh("msg", x.te.sortOf(et))
			x.bornDeep(st, v, clk)
		}
		cx := x.chanCtx(st, c, self, ch, SV{t: v, typ: et})
		x.obligeItems(cx, c.RecvReq, "receive from "+c.Key, pos, x.defTags)
		cx.assumeItems(c.RecvAssume)
		old := st.clone()
		cx.old = old
		if x.polling && c.PollDo != nil {
			cx.doAssign(c.PollDo)
		} else {
			cx.doAssign(c.RecvDo)
		}
		cx.assumeItems(c.RecvPost)
		x.markRecv(st, ch)
		if c.ClosedOnly {
			if g := x.p.sp.Ghosts["closed"]; g != nil && !strings.HasPrefix(c.Key, "fn:") {
				r := x.ghostRegion(g)
				if st.role == "" {
					// others may have closed it meanwhile
					st.reg[r] = u.Store(x.region(st, r), ch, u.True())
				} else {
					st.assume(u.Select(x.region(st, r), ch))
				}
			}
		}
		k(st, v, ok)
		return
	}
	if ci := st.chans[ch]; ci != nil && ci.local {
		n := len(ci.sends)
		for i, s := range ci.sends {
			b := st.clone()
			for _, t := range s.pc {
				b.assume(t)
			}
			// consumed
			bi := b.chans[ch]
			bi.sends = append(append([]capturedSend{}, bi.sends[:i]...), bi.sends[i+1:]...)
			x.markRecv(b, ch)
			b.note("%s: receives what was sent", pos)
			if x.feasible(b) {
				k(b, s.val, u.True())
			}
		}
		_ = n
		if st.child != nil && st.child.pre[ch] {
			// what the goroutine's parent may do later
			b := st.clone()
			clk := u.Fresh("clock", SInt)
			b.assume(u.Cmp("<=", b.clock, clk))
			b.clock = clk
			v := u.Fresh("recv", x.te.sortOf(et))
			x.bornDeep(b, v, clk)
			x.markRecv(b, ch)
			k(b, v, u.Fresh("recvok", SBool))
		}
		for _, s := range ci.closed {
			b := st.clone()
			for _, t := range s.pc {
				b.assume(t)
			}
			x.markRecv(b, ch)
			if x.feasible(b) {
				k(b, x.te.zero(et), u.False())
			}
		}
		return
	}
	clk := u.Fresh("clock", SInt)
	st.assume(u.Cmp("<=", st.clock, clk))
	st.clock = clk
	v := u.Fresh("recv", x.te.sortOf(et))
	if b := x.bornBy(v, clk); b != nil {
		st.assume(b)
	}
	x.markRecv(st, ch)
	k(st, v, u.Fresh("recvok", SBool))
}

// bornDeep: a value and its struct fields exist by now.
func (x *Exec) bornDeep(st *State, v, clk *Term) {
	if b := x.bornBy(v, clk); b != nil {
		st.assume(b)
		return
	}
	if d := x.u.dts[v.Sort]; d != nil && v.Sort != SSlice {
		for i := range d.Sels {
			x.bornDeep(st, x.u.Sel(d, i, v), clk)
		}
	}
}

func (x *Exec) sendEffect(st *State, ch *Term, v Val, et types.Type, pos string) {
	t, isT := v.(*Term)
	if !isT {
		t = x.term(v)
	}
	if c, self := x.chanSpec(ch); c != nil {
		x.used["chan:"+c.Key] = true
		if c.ClosedOnly {
			x.fault(st, x.defTags, "channel", "nothing is ever sent on "+c.Key, "", pos)
			return
		}
		cx := x.chanCtx(st, c, self, ch, SV{t: t, typ: et})
		cx.assumeItems(c.SendAssume)
		if !x.feasible(st) {
			st.assume(x.u.False())
			return
		}
		x.obligeItems(cx, c.SendReq, "send on "+c.Key, pos, x.defTags)
		cx.old = st.clone()
		cx.doAssign(c.SendDo)
		x.publish(st)
		return
	}
	if ci := st.chans[ch]; ci != nil && ci.local {
		x.capture(st, ch, v, false)
		x.publish(st)
		return
	}
	x.note2("send on a channel without a contract at " + pos)
	x.publish(st)
}

func (x *Exec) capture(st *State, ch *Term, v Val, closed bool) {
	if c := st.child; c != nil {
		if x.trial != c.trial {
			return
		}
		ci := c.caps[ch]
		if ci == nil {
			ci = &chanInfo{}
			c.caps[ch] = ci
			c.capOrd = append(c.capOrd, ch)
		}
		cs := capturedSend{pc: append([]*Term{}, st.pc[min(c.base, len(st.pc)):]...), val: v}
		if closed {
			ci.closed = append(ci.closed, cs)
		} else {
			ci.sends = append(ci.sends, cs)
		}
		return
	}
	ci := st.chans[ch]
	if closed {
		ci.closed = append(ci.closed, capturedSend{})
	} else {
		ci.sends = append(ci.sends, capturedSend{val: v})
	}
}

func (x *Exec) closeOp(st *State, ch *Term, pos token.Pos) {
	u := x.u
	p := x.pos(pos)
	x.oblige(st, x.defTags, "safety", "close of nil channel", u.Not(u.Eq(ch, u.Nil(SRef))), p)
	c, self := x.chanSpec(ch)
	local := st.chans[ch] != nil && st.chans[ch].local
	if g := x.p.sp.Ghosts["closed"]; g != nil && (c != nil || local) {
		r := x.ghostRegion(g)
		x.oblige(st, x.defTags, "safety", "a channel is closed once", u.Not(u.Select(x.region(st, r), ch)), p)
		st.reg[r] = u.Store(x.region(st, r), ch, u.True())
	}
	if g, w := x.p.sp.Ghosts["closewait"], x.p.sp.Ghosts["lastwaited"]; g != nil && w != nil && local {
		r := x.ghostRegion(g)
		st.reg[r] = u.Store(x.region(st, r), ch, x.region(st, x.ghostRegion(w)))
	}
	if c != nil {
		x.used["chan:"+c.Key] = true
		if !c.ClosedOnly {
			x.fault(st, x.defTags, "channel", c.Key+" is never closed", "", p)
			return
		}
		cx := x.chanCtx(st, c, self, ch, SV{t: u.Nil(SRef)})
		x.obligeItems(cx, c.CloseReq, "close of "+c.Key, p, x.defTags)
		cx.old = st.clone()
		cx.doAssign(c.CloseDo)
		return
	}
	if local {
		x.capture(st, ch, nil, true)
	}
}

// splitChan resolves a conditional channel.
func (x *Exec) splitChan(st *State, ch *Term, k func(*State, *Term)) {
	if ch.Op == "ite" {
		x.branch(st, ch.Args[0], "channel", func(s *State, b bool) {
			i := 2
			if b {
				i = 1
			}
			x.splitChan(s, ch.Args[i], k)
		})
		return
	}
	k(st, ch)
}

func (x *Exec) isPrompt(ch *Term) bool {
	c, _ := x.chanSpec(ch)
	return c != nil && c.Prompt
}

func (x *Exec) recvOp(fr *Frame, st *State, in *ssa.UnOp, ch *Term, commaOk bool, resume func(*State)) {
	pos := x.pos(in.Pos())
	x.splitChan(st, ch, func(st *State, ch *Term) {
		if ch == x.u.Nil(SRef) {
			return
		}
		if ch.Op == "deadch" && len(ch.Args) == 1 && ch.Args[0] == st.tomb {
			x.fault(st, x.defTags, "deadlock", "a goroutine does not wait for the tomb that waits for it", "", pos)
			return
		}
		x.blockAt(st, pos, []listen{{ch: ch, prompt: x.isPrompt(ch)}}, nil)
		x.recvEffect(st, ch, chanElem(in.X.Type()), pos, func(s *State, v Val, ok *Term) {
			if commaOk {
				x.set(fr, s, in, Tuple{v, ok})
			} else {
				x.set(fr, s, in, v)
			}
			resume(s)
		})
	})
}

func (x *Exec) sendOp(fr *Frame, st *State, p token.Pos, ch *Term, v Val, vt types.Type, resume func(*State)) {
	pos := x.pos(p)
	x.splitChan(st, ch, func(st *State, ch *Term) {
		if ch == x.u.Nil(SRef) {
			return
		}
		buffered := false
		if ci := st.chans[ch]; ci != nil && ci.local && ci.cap != nil && ci.cap.Op != "0" && ci.cap.lit {
			// room in the buffer: at most cap sends on a path
			n, _ := litInt(ci.cap)
			buffered = n != nil && int64(ci.nsent) < n.Int64()
			ci.nsent++
		}
		if !buffered {
			x.blockAt(st, pos, []listen{{ch: ch, send: true, prompt: x.isPrompt(ch)}}, nil)
		}
		x.sendEffect(st, ch, v, vt, pos)
		if !st.dead() {
			resume(st)
		}
	})
}

func (x *Exec) selectOp(fr *Frame, st *State, in *ssa.Select, resume func(*State)) {
	u := x.u
	pos := x.pos(in.Pos())
	n := len(in.States)
	chans := make([]*Term, n)
	var res func(st *State, i int)
	res = func(st *State, i int) {
		if i < n {
			ch := x.term(x.val(fr, st, in.States[i].Chan))
			x.splitChan(st, ch, func(s *State, c *Term) {
				saved := chans[i]
				chans[i] = c
				res(s, i+1)
				chans[i] = saved
			})
			return
		}
		cs := append([]*Term{}, chans...)
		var ls []listen
		for j, c := range cs {
			if c == u.Nil(SRef) {
				continue
			}
			ls = append(ls, listen{ch: c, send: in.States[j].Dir == types.SendOnly, prompt: x.isPrompt(c)})
		}
		if in.Blocking {
			x.blockAt(st, pos, ls, nil)
		} else {
			x.publish(st)
			x.yield(st)
		}
		var vals []Val
		for _, s := range in.States {
			if s.Send != nil {
				vals = append(vals, x.val(fr, st, s.Send))
			} else {
				vals = append(vals, nil)
			}
		}
		tuple := func(idx int, ok *Term, at int, v Val) Tuple {
			t := Tuple{u.Int(int64(idx)), ok}
			for j, s := range in.States {
				if s.Dir != types.RecvOnly {
					continue
				}
				if j == at {
					t = append(t, v)
				} else {
					t = append(t, x.te.zero(chanElem(s.Chan.Type())))
				}
			}
			return t
		}
		for j, c := range cs {
			j, c := j, c
			if c == u.Nil(SRef) {
				continue
			}
			s := st.clone()
			s.note("%s: select case %d (%s)", pos, j, x.chanName(c))
			if in.States[j].Dir == types.SendOnly {
				x.sendEffect(s, c, vals[j], in.States[j].Send.Type(), pos)
				if s.dead() {
					continue
				}
				x.set(fr, s, in, tuple(j, u.False(), -1, nil))
				resume(s)
				continue
			}
			x.polling = !in.Blocking
			x.recvEffect(s, c, chanElem(in.States[j].Chan.Type()), pos, func(s2 *State, v Val, ok *Term) {
				x.polling = false
				if !x.feasible(s2) {
					return
				}
				x.set(fr, s2, in, tuple(j, ok, j, v))
				resume(s2)
			})
			x.polling = false
		}
		if !in.Blocking {
			s := st.clone()
			for j, c := range cs {
				if sp, self := x.chanSpec(c); sp != nil && in.States[j].Dir == types.RecvOnly {
					cx := x.chanCtx(s, sp, self, c, SV{t: u.Nil(SRef)})
					cx.assumeItems(sp.Idle)
				}
			}
			s.note("%s: select default", pos)
			if x.feasible(s) {
				x.set(fr, s, in, tuple(-1, u.False(), -1, nil))
				resume(s)
			}
		}
	}
	res(st, 0)
}

func (x *Exec) chanName(c *Term) string {
	if p := x.prov[c]; p != nil {
		return p.key
	}
	return x.u.Show(c)
}

// ---- goroutines

func (x *Exec) applySpawn(st *State, spec *FuncSpec, args []Val, fn *ssa.Function, pos string) {
	x.used["func:"+spec.Key] = true
	ts := make([]types.Type, len(fn.Params))
	for i, p := range fn.Params {
		ts[i] = p.Type()
	}
	vars := x.bindParams(spec, args, ts)
	c := &Ctx{x: x, st: st, old: st, entry: x.root, vars: vars, pkg: specPkg(spec)}
	x.obligeItems(c, spec.Requires, "precondition of goroutine "+spec.Key, pos, x.defTags)
	x.obligeItems(c, spec.SpawnReq, "start of goroutine "+spec.Key, pos, x.defTags)
	c.old = st.clone()
	c.doAssign(spec.SpawnDo)
	x.publish(st)
}

func (x *Exec) goStmt(fr *Frame, st *State, in *ssa.Go, resume func(*State)) {
	fnv, args := x.callOperands(fr, st, &in.Call)
	pos := in.Pos()
	st.note("%s: go", x.pos(pos))
	if callee := in.Call.StaticCallee(); callee != nil && callee.Parent() == nil {
		if spec := x.p.specOf(callee); spec != nil && spec.Spawned {
			x.applySpawn(st, spec, args, callee, x.pos(pos))
			resume(st)
			return
		}
	}
	var ws []*Term
	if t, ok := fnv.(*Term); ok && !in.Call.IsInvoke() {
		ws = x.workerBinds(st, t)
	}
	for i, a := range in.Call.Args {
		if x.isWorker(a.Type()) {
			if t, ok := args[i].(*Term); ok {
				ws = append(ws, t)
			}
		}
	}
	if in.Call.IsInvoke() && x.isWorker(in.Call.Value.Type()) {
		ws = append(ws, x.term(fnv))
	}
	x.spawn(fr, st, ws, pos, func(s *State, k Cont) {
		x.callResolved(fr, s, &in.Call, fnv, args, in, k)
	}, nil, false, resume)
}

func (x *Exec) isWorker(t types.Type) bool {
	n, ok := normType(t).(*types.Named)
	return ok && n.Obj().Name() == "Worker"
}

// workerBinds lists the workers a closure captures.
func (x *Exec) workerBinds(st *State, f *Term) []*Term {
	var ws []*Term
	c := x.clos[f]
	if c == nil {
		return nil
	}
	for i, fv := range c.fn.FreeVars {
		t := fv.Type()
		if x.isWorker(t) {
			ws = append(ws, x.term(c.binds[i]))
		} else if p, ok := under(t).(*types.Pointer); ok && x.isWorker(p.Elem()) {
			ws = append(ws, x.load(st, c.binds[i], p.Elem()))
		}
	}
	return ws
}

func (x *Exec) spawnChild(fr *Frame, st *State, f *Term, args []Val, pos token.Pos, exit func(*State, Outcome), wgGo bool, resume func(*State)) {
	clo := x.clos[f]
	if clo == nil {
		panic(unsupported("goroutine running an unknown function"))
	}
	x.spawn(fr, st, x.workerBinds(st, f), pos, func(s *State, k Cont) {
		x.callFn(fr, s, clo.fn, args, clo.binds, clo.fn.Signature, pos, k)
	}, exit, wgGo, resume)
}

// spawn executes a goroutine in place, from the state in which it is started.
func (x *Exec) spawn(fr *Frame, st *State, ws []*Term, pos token.Pos, body func(*State, Cont), exit func(*State, Outcome), wgGo bool, resume func(*State)) {
	u := x.u
	p := x.pos(pos)
	x.publish(st)
	nObl := len(x.obls)
	var ch *childCtx
	give := map[string]*Term{}
	for try := 0; ; try++ {
		if try > 3 {
			panic(unsupported("lock hand-over"))
		}
		cs := st.clone()
		cs.role = ""
		cs.held = map[string]*Term{}
		for l, o := range give {
			cs.held[l] = o
		}
		cs.loops = map[loopKey]*loopCtx{}
		cs.dirty = map[string]bool{}
		cs.panics = nil
		cs.tok, cs.tokD = 0, 0
		cs.tomb = nil
		cs.wgAddAt, cs.wgWaitAt = nil, nil
		ch = &childCtx{parent: st.child, trial: x.trial, base: len(cs.pc), caps: map[*Term]*chanInfo{}, need: map[string]bool{},
			avail: map[string]*Term{}, facts: map[factKey]bool{}, pend: map[factKey][][]*Term{}, dones: map[int]bool{}, pre: map[*Term]bool{}}
		for c := range st.chans {
			ch.pre[c] = true
		}
		for l, o := range st.held {
			if give[l] == nil {
				ch.avail[l] = o
			}
		}
		for _, n := range x.p.sp.GhostOrd {
			if g := x.p.sp.Ghosts[n]; g.Own {
				x.initGhost(cs, g)
			}
		}
		for _, f := range x.p.sp.Facts[x.rootCtx.pkg] {
			if f.Var == "" {
				ch.facts[factKey{f, nil, nil}] = true
			}
			for _, w := range ws {
				if f.Chan == "" {
					ch.facts[factKey{f, w, nil}] = true
					continue
				}
				for c, ci := range st.chans {
					if ci.local {
						ch.facts[factKey{f, w, c}] = true
					}
				}
			}
		}
		cs.child = ch
		cs.note("%s: in the goroutine", p)
		body(cs, func(s *State, o Outcome) {
			if len(ch.need) > 0 {
				return
			}
			if !x.feasible(s) {
				return
			}
			if wgGo {
				x.wgDone(s, pos)
			}
			ch.exits++
			if o.kind == oPanic && !(x.spec != nil && x.spec.MayPanic) {
				x.fault(s, x.defTags, "panic", "no panic escapes from a goroutine", "", p)
			}
			for l := range s.held {
				x.fault(s, x.lockTags(l), "lock", "goroutine ends holding "+l, "", p)
			}
			if s.tok != 0 {
				x.fault(s, x.wgTags(), "waitgroup", "everything added to a wait group is released by a goroutine", "", p)
			}
			for _, n := range s.wgAddAt {
				if s.tokD <= n {
					x.fault(s, x.wgTags(), "waitgroup", "the wait group is added to only by a goroutine it waits for", "", p)
				}
			}
			for _, n := range s.wgWaitAt {
				if s.tokD > n {
					x.fault(s, x.wgTags(), "waitgroup", "a goroutine does not wait for itself", "", p)
				}
			}
			ch.dones[s.tokD] = true
			if s.tokD == 0 {
				x.childFactsExit(s)
			}
			if x.spec != nil && len(x.spec.ChildExit) > 0 {
				c := &Ctx{x: x, st: s, old: x.root, entry: x.root, vars: x.rootCtx.vars, pkg: x.rootCtx.pkg}
				x.obligeItems(c, x.spec.ChildExit, "end of goroutine", p, x.defTags)
			}
			if exit != nil {
				exit(s, o)
			}
		})
		if len(ch.need) == 0 {
			break
		}
		x.obls = x.obls[:nObl]
		for l := range ch.need {
			give[l] = st.held[l]
		}
	}
	for l := range give {
		delete(st.held, l)
	}
	if len(ch.dones) > 1 {
		x.fault(st, x.wgTags(), "waitgroup", "a goroutine releases the wait group on every path", "", p)
	}
	for d := range ch.dones {
		st.tok -= d
		if st.tok < 0 {
			x.fault(st, x.wgTags(), "waitgroup", "a goroutine releases the wait group only after it was added to", "", p)
			st.tok = 0
		}
	}
	if ch.waits {
		st.wgWaiter = true
	}
	for _, c := range ch.capOrd {
		ci := ch.caps[c]
		pi := st.chans[c]
		if pi == nil {
			continue
		}
		pi.sends = append(pi.sends[:len(pi.sends):len(pi.sends)], ci.sends...)
		pi.closed = append(pi.closed[:len(pi.closed):len(pi.closed)], ci.closed...)
	}
	var names []string
	byName := map[string][]*Term{}
	if g := x.p.sp.Ghosts["spawned"]; g != nil {
		st.reg[x.ghostRegion(g)] = u.True()
	}
	for fk, ok := range ch.facts {
		if fk.f.Var == "" {
			if ok && ch.blocks > 0 {
				st.reg[x.ghostRegion(x.p.sp.Ghosts[fk.f.Name])] = u.True()
			}
			continue
		}
		if ok && fk.ch != nil {
			r := x.ghostRegion(x.p.sp.Ghosts[fk.f.Name])
			st.reg[r] = u.Store(x.region(st, r), fk.ch, fk.w)
			continue
		}
		if ok && len(ch.pend[fk]) > 0 {
			st.pend = append(st.pend[:len(st.pend):len(st.pend)], pending{fk, ch.pend[fk]})
			continue
		}
		if ok {
			if byName[fk.f.Name] == nil {
				names = append(names, fk.f.Name)
			}
			byName[fk.f.Name] = append(byName[fk.f.Name], fk.w)
		} else if debugLoops {
			fmt.Printf("  [%s %s] child fact %s does not hold\n", x.name, p, fk.f.Name)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		g := x.p.sp.Ghosts[n]
		r := x.ghostRegion(g)
		for _, w := range byName[n] {
			st.reg[r] = u.Store(x.region(st, r), w, u.True())
		}
	}
	// facts that waited for this one
	var left []pending
	for _, pd := range st.pend {
		ok := true
		for _, alts := range pd.cs {
			one := false
			for _, c := range alts {
				one = one || x.prove(st, u.Eq(u.Select(x.region(st, x.ghostRegion(x.p.sp.Ghosts["watched"])), c), pd.fk.w))
			}
			ok = ok && one
		}
		if !ok {
			left = append(left, pd)
			continue
		}
		r := x.ghostRegion(x.p.sp.Ghosts[pd.fk.f.Name])
		st.reg[r] = u.Store(x.region(st, r), pd.fk.w, u.True())
	}
	st.pend = left
	if n := len(ch.spawns); n > 0 {
		first := ch.spawns[0]
		for _, s := range ch.spawns[1:] {
			if s.spec != first.spec {
				panic(unsupported("goroutine running several goroutine bodies"))
			}
		}
		x.applySpawn(st, first.spec, first.args, first.fn, p)
	}
	resume(st)
}

// tombGo starts a tomb-tracked goroutine.
func (x *Exec) tombGo(fr *Frame, st *State, self, f *Term, pos token.Pos, resume func(*State)) {
	clo := x.clos[f]
	if clo == nil {
		panic(unsupported("tomb.Go of an unknown function"))
	}
	p := x.pos(pos)
	fn, args := clo.fn, clo.binds
	if t := boundTarget(fn); t != nil {
		if spec := x.p.specOf(t); spec != nil {
			x.markTomb(st, self)
			x.applySpawn(st, spec, args, t, p)
			resume(st)
			return
		}
	}
	// a closure that only calls a function with a goroutine contract is
	// handled like that function
	x.markTomb(st, self)
	x.spawn(fr, st, x.workerBinds(st, f), pos, func(s *State, k Cont) {
		s.tomb = self
		x.stillAlive(s)
		x.callFn(fr, s, clo.fn, nil, clo.binds, clo.fn.Signature, pos, k)
	}, func(s *State, o Outcome) {
		if x.spec == nil || len(x.spec.TombExit) == 0 {
			return
		}
		c := &Ctx{x: x, st: s, old: x.root, entry: x.root, vars: map[string]SV{}, pkg: x.rootCtx.pkg}
		for n, v := range x.rootCtx.vars {
			c.vars[n] = v
		}
		c.vars["$tomb"] = SV{t: self}
		if len(o.vals) == 1 {
			c.vars["$ret"] = SV{t: x.term(o.vals[0]), typ: types.Universe.Lookup("error").Type()}
		}
		x.obligeItems(c, x.spec.TombExit, "end of tracked goroutine", p, x.defTags)
	}, false, resume)
}

func (x *Exec) markTomb(st *State, self *Term) {
	if g := x.p.sp.Ghosts["tombgo"]; g != nil {
		r := x.ghostRegion(g)
		st.reg[r] = x.u.Store(x.region(st, r), self, x.u.Arith("+", x.u.Select(x.region(st, r), self), x.u.Int(1)))
	}
}
