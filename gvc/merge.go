package main

import (
	"os"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// Joining paths. After a conditional whose branches meet again, the states
// that reach the meeting point are merged into one: what they know under a
// guard each, and the values that differ chosen by the guards. A branch that
// ends otherwise, or whose state cannot be merged, is explored on its own.

var noMerge = os.Getenv("GVC_NOMERGE") != ""

type joinKey struct {
	frame int
	b     *ssa.BasicBlock
}

type joiner struct {
	states []*State
}

// postdoms computes the immediate postdominator of every block that has one.
func postdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	full := func() []bool {
		s := make([]bool, n)
		for i := range s {
			s[i] = true
		}
		return s
	}
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = full()
	}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = make([]bool, n)
			pd[i][i] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			s := full()
			// a branch that panics does not come back
			k := 0
			for _, t := range b.Succs {
				if ends(t) && len(b.Succs) > 1 {
					continue
				}
				k++
				for j := range s {
					s[j] = s[j] && pd[t.Index][j]
				}
			}
			if k == 0 {
				s = make([]bool, n)
			}
			s[i] = true
			if !reflect.DeepEqual(s, pd[i]) {
				pd[i] = s
				changed = true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the closest: the one that all the others postdominate
		for j := range fn.Blocks {
			if j == i || !pd[i][j] {
				continue
			}
			closest := true
			for l := range fn.Blocks {
				if l != i && pd[i][l] && !pd[j][l] {
					closest = false
				}
			}
			if closest {
				out[b] = fn.Blocks[j]
			}
		}
	}
	return out
}

// ends: the block leaves the function without a return value to join on.
func ends(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic, *ssa.Return:
		return true
	}
	return false
}

func (x *Exec) joinOf(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	if noMerge || x.unmerged {
		return nil
	}
	m, ok := x.pdoms[fr.fn]
	if !ok {
		m = postdoms(fr.fn)
		x.pdoms[fr.fn] = m
	}
	j := m[b]
	if j == nil || len(j.Preds) < 2 || fr.loops.head[j] != nil {
		return nil
	}
	for _, lp := range fr.loops.head {
		if lp.blocks[b] != lp.blocks[j] {
			return nil
		}
	}
	return j
}

// ifJoin runs both branches of a conditional, then what follows them once.
func (x *Exec) ifJoin(fr *Frame, b, j *ssa.BasicBlock, st *State, cond *Term, pos string, k Cont) {
	key := joinKey{fr.id, j}
	outer := x.joins[key]
	jn := &joiner{}
	base := len(st.pc)
	loops := map[loopKey]*loopCtx{}
	for a, c := range st.loops {
		loops[a] = c
	}
	x.joins[key] = jn
	x.branch(st, cond, pos, func(s *State, t bool) {
		i := 1
		if t {
			i = 0
		}
		x.gotoBlock(fr, b, b.Succs[i], s, k)
	})
	if outer == nil {
		delete(x.joins, key)
	} else {
		x.joins[key] = outer
	}
	for _, s := range x.merged(jn.states, base, j, fr) {
		if outer != nil {
			outer.states = append(outer.states, s)
		} else {
			x.block(fr, j, s, k)
		}
	}
}

// merged merges states as far as possible.
func (x *Exec) merged(in []*State, base int, j *ssa.BasicBlock, fr *Frame) []*State {
	var out []*State
next:
	for _, s := range in {
		for i, o := range out {
			if m := x.merge2(o, s, base, j, fr); m != nil {
				out[i] = m
				continue next
			}
		}
		out = append(out, s)
	}
	return out
}

func sameMaps(a, b any) bool { return reflect.DeepEqual(a, b) }

func (x *Exec) merge2(a, b *State, base int, j *ssa.BasicBlock, fr *Frame) *State {
	u := x.u
	if len(a.pc) < base || len(b.pc) < base {
		return nil
	}
	for i := 0; i < base; i++ {
		if a.pc[i] != b.pc[i] {
			return nil
		}
	}
	if g := x.p.sp.Ghosts["ev"]; g != nil {
		r := x.ghostRegion(g)
		if a.reg[r] != b.reg[r] {
			return nil
		}
	}
	if a.role != b.role || a.child != b.child || a.depth != b.depth || a.tokD != b.tokD || a.tomb != b.tomb || a.tok != b.tok || a.wgWaiter != b.wgWaiter || a.evOld != b.evOld ||
		len(a.panics) != 0 || len(b.panics) != 0 || !sameMaps(a.wgAddAt, b.wgAddAt) || !sameMaps(a.wgWaitAt, b.wgWaitAt) || !sameMaps(a.pend, b.pend) ||
		!sameMaps(a.held, b.held) || !sameMaps(a.dirty, b.dirty) {
		return nil
	}
	for _, l := range []*State{a, b} {
		o := b
		if l == b {
			o = a
		}
		for k, c := range l.loops {
			if o.loops[k] != c {
				return nil
			}
		}
		for k, d := range l.defers {
			if len(d) != len(o.defers[k]) {
				return nil
			}
			for i := range d {
				if d[i].in != o.defers[k][i].in || !reflect.DeepEqual(d[i].args, o.defers[k][i].args) {
					return nil
				}
			}
		}
		for k, c := range l.chans {
			if p := o.chans[k]; p == nil || !reflect.DeepEqual(c, p) {
				return nil
			}
		}
	}
	// the values that differ
	var g *Term
	ea, eb := u.And(a.pc[base:]...), u.And(b.pc[base:]...)
	if len(a.pc) > base && len(b.pc) > base && (a.pc[base] == u.Not(b.pc[base]) || u.Not(a.pc[base]) == b.pc[base]) {
		g = a.pc[base]
	} else {
		g = u.Fresh("path", SBool)
	}
	m := a.clone()
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := envKey{fr.id, p}
		v, ok := x.mergeVal(g, a.env[k], b.env[k])
		if !ok {
			return nil
		}
		m.env[k] = v
	}
	names := map[string]bool{}
	for n := range a.reg {
		names[n] = true
	}
	for n := range b.reg {
		names[n] = true
	}
	for n := range names {
		ta, tb := x.region(a, n), x.region(b, n)
		m.reg[n] = x.mergeTerm(g, ta, tb)
	}
	m.pc = m.pc[:base:base]
	m.assume(u.Implies(g, ea))
	m.assume(u.Implies(u.Not(g), eb))
	m.clock = u.Ite(g, a.clock, b.clock)
	if b.pubSeq > m.pubSeq {
		m.pubSeq = b.pubSeq
	}
	n := 0
	for n < len(a.trace) && n < len(b.trace) && a.trace[n] == b.trace[n] {
		n++
	}
	m.trace = m.trace[:n:n]
	m.note("joined")
	return m
}

func (x *Exec) mergeVal(g *Term, a, b Val) (Val, bool) {
	switch v := a.(type) {
	case *Term:
		w, ok := b.(*Term)
		if !ok || v.Sort != w.Sort {
			return nil, false
		}
		return x.mergeTerm(g, v, w), true
	case Tuple:
		w, ok := b.(Tuple)
		if !ok || len(v) != len(w) {
			return nil, false
		}
		var out Tuple
		for i := range v {
			r, ok := x.mergeVal(g, v[i], w[i])
			if !ok {
				return nil, false
			}
			out = append(out, r)
		}
		return out, true
	case nil:
		return nil, b == nil
	}
	return a, reflect.DeepEqual(a, b)
}

func (x *Exec) mergeTerm(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	u := x.u
	if isArr(a.Sort) {
		// arrays that come from one array by stores
		ia, ba := stores(a)
		ib, bb := stores(b)
		if c := common(ba, bb); c != nil {
			idx := append(append([]*Term{}, ia[:depthOf(a, c)]...), ib[:depthOf(b, c)]...)
			seen := map[*Term]bool{}
			r := c
			n := 0
			for i := len(idx) - 1; i >= 0; i-- {
				if t := idx[i]; !seen[t] {
					seen[t] = true
					n++
					r = u.Store(r, t, x.mergeTerm(g, u.Select(a, t), u.Select(b, t)))
				}
			}
			if n <= 16 {
				return r
			}
		}
	}
	if d := u.dts[a.Sort]; d != nil && a.Op == d.Ctor && b.Op == d.Ctor && len(a.Args) > 0 {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = x.mergeTerm(g, a.Args[i], b.Args[i])
		}
		return u.Ctor(d, args...)
	}
	return u.Ite(g, a, b)
}

// stores returns the indices stored to and the arrays in between.
func stores(t *Term) (idx []*Term, chain []*Term) {
	chain = append(chain, t)
	for t.Op == "store" {
		idx = append(idx, t.Args[1])
		t = t.Args[0]
		chain = append(chain, t)
	}
	return
}

func common(a, b []*Term) *Term {
	in := map[*Term]bool{}
	for _, t := range a {
		in[t] = true
	}
	for _, t := range b {
		if in[t] {
			return t
		}
	}
	return nil
}

func depthOf(t, c *Term) int {
	n := 0
	for t != c {
		t = t.Args[0]
		n++
	}
	return n
}
