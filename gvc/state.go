package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *Loc, Tuple, *Iter.
type Val any

type Tuple []Val

// Loc is an interior address: a field of an object, an array element or a global.
type Loc struct {
	region string // region name
	ref    *Term  // object (nil for globals)
	idx    *Term  // element index, for A: regions
	path   []int  // nested struct value path
	typ    types.Type
	owner  string // struct type of the outermost field
	field  string
}

// Clo is a function value with its captured bindings.
type Clo struct {
	fn    *ssa.Function
	binds []Val
}

// Iter is a map iterator.
type Iter struct {
	id   int
	m    *Term
	mt   *types.Map
	dom0 *Term
}

type envKey struct {
	frame int
	v     ssa.Value
}

type deferred struct {
	call ssa.CallCommon
	fn   Val
	args []Val
	in   ssa.Instruction
}

type panicRec struct {
	val       *Term // nil: goexit
	recovered bool
	frame     int // frame whose defers are running
}

type chanInfo struct {
	cap    *Term
	sends  []capturedSend
	closed []capturedSend
	nsent  int
	local  bool // only captured operations touch it
}

type capturedSend struct {
	pc  []*Term
	val Val
}

// State is one symbolic state on one path.
type State struct {
	pc       []*Term
	reg      map[string]*Term
	env      map[envKey]Val
	defers   map[int][]deferred
	held     map[string]*Term // lock -> owner object
	clock    *Term
	role     string
	panics   []panicRec
	trace    []string
	pubSeq   int
	chans    map[*Term]*chanInfo
	dirty    map[string]bool // conds that owe a notification
	loops    map[loopKey]*loopCtx
	child    *childCtx
	depth    int
	tokD     int // wait-group token delta of a child goroutine
	evOld    *State
	tomb     *Term // the tomb that tracks this goroutine
	tok      int   // wait-group tokens added and not handed over yet
	wgWaiter bool
	wgAddAt  []int
	wgWaitAt []int
	pend     []pending
}

func (s *State) clone() *State {
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.reg = make(map[string]*Term, len(s.reg))
	for k, v := range s.reg {
		n.reg[k] = v
	}
	n.env = make(map[envKey]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = make(map[int][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.held = make(map[string]*Term, len(s.held))
	for k, v := range s.held {
		n.held[k] = v
	}
	n.panics = append([]panicRec(nil), s.panics...)
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.chans = make(map[*Term]*chanInfo, len(s.chans))
	for k, v := range s.chans {
		c := *v
		c.sends = c.sends[:len(c.sends):len(c.sends)]
		c.closed = c.closed[:len(c.closed):len(c.closed)]
		n.chans[k] = &c
	}
	n.dirty = make(map[string]bool, len(s.dirty))
	for k, v := range s.dirty {
		n.dirty[k] = v
	}
	n.loops = make(map[loopKey]*loopCtx, len(s.loops))
	for k, v := range s.loops {
		n.loops[k] = v
	}
	return &n
}

func (s *State) assume(t *Term) {
	switch t.Op {
	case "true":
		return
	case "and":
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc, t)
}

func (s *State) dead() bool {
	for _, t := range s.pc {
		if t.Op == "false" {
			return true
		}
	}
	return false
}

func (s *State) note(f string, a ...any) { s.trace = append(s.trace, fmt.Sprintf(f, a...)) }

// ---- regions

func (x *Exec) regSort(name string) Sort {
	if s, ok := x.regSorts[name]; ok {
		return s
	}
	panic(unsupported("unknown region " + name))
}

// region returns the current contents of a region.
func (x *Exec) region(st *State, name string) *Term {
	if t, ok := st.reg[name]; ok {
		return t
	}
	s := x.regSort(name)
	t := x.u.Const(smtName(name)+"@0", s)
	if !x.baseDone[name] {
		x.baseDone[name] = true
		x.wellFormed(t, x.clock0)
		if strings.HasPrefix(name, "MD:") {
			k, _ := splitArr(s)
			_ = k
			_, inner := splitArr(s)
			ks, _ := splitArr(inner)
			x.u.Axiom(t.Op, x.u.Eq(x.u.Select(t, x.u.Nil(SRef)), x.u.ConstArr(ks, x.u.False())))
		}
	}
	st.reg[name] = t
	return t
}

// wellFormed: everything stored in a region existed when the region value was
// introduced.
func (x *Exec) wellFormed(t *Term, clock *Term) {
	u := x.u
	if !isArr(t.Sort) {
		if b := x.bornBy(t, clock); b != nil {
			u.Axiom(t.Op, b)
		}
		return
	}
	k, v := splitArr(t.Sort)
	i := u.BoundVar("i", k)
	sel := u.Select(t, i)
	if isArr(v) {
		k2, _ := splitArr(v)
		j := u.BoundVar("j", k2)
		sel2 := u.Select(sel, j)
		if b := x.bornBy(sel2, clock); b != nil {
			if k == SRef {
				b = u.Implies(u.Cmp("<=", x.birth(i), clock), b)
			}
			u.Axiom(t.Op, u.Forall([]*Term{i, j}, []*Term{sel2}, b))
		}
		return
	}
	if b := x.bornBy(sel, clock); b != nil {
		if k == SRef {
			b = u.Implies(u.Cmp("<=", x.birth(i), clock), b)
		}
		u.Axiom(t.Op, u.Forall([]*Term{i}, []*Term{sel}, b))
	}
}

func (x *Exec) birth(r *Term) *Term {
	u := x.u
	return u.App("birth", SInt, r)
}

func (x *Exec) bornBy(v, clock *Term) *Term {
	u := x.u
	switch v.Sort {
	case SRef:
		return u.Cmp("<=", x.birth(v), clock)
	case SSlice:
		d := u.dts[SSlice]
		return u.And(u.Cmp("<=", x.birth(u.Sel(d, 0, v)), clock), u.Cmp(">=", u.Sel(d, 1, v), u.Int(0)))
	}
	if d := u.dts[v.Sort]; d != nil {
		var bs []*Term
		for i := range d.Sels {
			if b := x.bornBy(u.Sel(d, i, v), clock); b != nil {
				bs = append(bs, b)
			}
		}
		if len(bs) > 0 {
			return u.And(bs...)
		}
	}
	return nil
}

func (x *Exec) fieldRegion(st types.Type, i int) string {
	s, _ := x.te.transparentStruct(st)
	name := "F:" + structName(st) + "." + s.Field(i).Name()
	if _, ok := x.regSorts[name]; !ok {
		x.regSorts[name] = arrSort(SRef, x.te.sortOf(s.Field(i).Type()))
	}
	return name
}

func (x *Exec) cellRegion(t types.Type) string {
	name := "C:" + typeName(normType(t))
	if _, ok := x.regSorts[name]; !ok {
		x.regSorts[name] = arrSort(SRef, x.te.sortOf(t))
	}
	return name
}

func (x *Exec) elemRegion(t types.Type) string {
	name := "A:" + typeName(normType(t))
	if _, ok := x.regSorts[name]; !ok {
		x.regSorts[name] = arrSort(SRef, arrSort(SInt, x.te.sortOf(t)))
	}
	return name
}

func mapType(t types.Type) *types.Map { return under(t).(*types.Map) }

func (x *Exec) mapRegions(t types.Type) (string, string) {
	m := mapType(t)
	n := typeName(m)
	d, v := "MD:"+n, "MV:"+n
	if _, ok := x.regSorts[d]; !ok {
		ks := x.te.sortOf(m.Key())
		x.regSorts[d] = arrSort(SRef, arrSort(ks, SBool))
		x.regSorts[v] = arrSort(SRef, arrSort(ks, x.te.sortOf(m.Elem())))
	}
	return d, v
}

func (x *Exec) ghostRegion(g *GhostDecl) string {
	name := "G:" + g.Name
	if _, ok := x.regSorts[name]; !ok {
		s, _ := x.sortByName(g.Type, "")
		x.regSorts[name] = s
	}
	return name
}

// ---- allocation

func (x *Exec) tick(st *State) *Term {
	st.clock = x.u.Arith("+", st.clock, x.u.Int(1))
	return st.clock
}

func (x *Exec) newRef(st *State, prefix string) *Term {
	r := x.u.Fresh("new_"+prefix, SRef)
	x.freshSeq++
	r.fresh = x.freshSeq
	c := x.tick(st)
	st.assume(x.u.mk("=", SBool, x.birth(r), c))
	st.assume(x.u.mk("not", SBool, x.u.mk("=", SBool, r, x.u.Nil(SRef))))
	return r
}

// private reports whether ref was allocated on this path and has not been
// made visible to another goroutine yet.
func (x *Exec) private(st *State, ref *Term) bool {
	if ref != nil && len(ref.Args) > 0 && strings.HasPrefix(ref.Op, "addr!") {
		return x.private(st, ref.Args[0])
	}
	return ref != nil && ref.fresh > st.pubSeq
}

func (x *Exec) publish(st *State) { st.pubSeq = x.freshSeq }

func (x *Exec) allocObject(st *State, t types.Type, prefix string) *Term {
	r := x.newRef(st, prefix)
	x.storeZero(st, r, t)
	return r
}

func (x *Exec) storeZero(st *State, r *Term, t types.Type) {
	u := x.u
	if s, ok := x.te.transparentStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			reg := x.fieldRegion(t, i)
			st.reg[reg] = u.Store(x.region(st, reg), r, x.te.zero(s.Field(i).Type()))
		}
		return
	}
	if a, ok := under(t).(*types.Array); ok {
		reg := x.elemRegion(a.Elem())
		st.reg[reg] = u.Store(x.region(st, reg), r, u.ConstArr(SInt, x.te.zero(a.Elem())))
		return
	}
	reg := x.cellRegion(t)
	st.reg[reg] = u.Store(x.region(st, reg), r, x.te.zero(t))
}

// ---- addresses

// locTerm turns an interior address into a term.
func (x *Exec) locTerm(l *Loc) *Term {
	u := x.u
	name := "addr!" + smtName(l.region)
	for _, i := range l.path {
		name += fmt.Sprintf(".%d", i)
	}
	var t *Term
	switch {
	case l.ref == nil:
		t = u.Const(name, SRef)
	case l.idx != nil:
		t = u.App(name, SRef, l.ref, l.idx)
	default:
		t = u.App(name, SRef, l.ref)
		if !x.baseDone[name] {
			x.baseDone[name] = true
			r := u.BoundVar("r", SRef)
			a := u.App(name, SRef, r)
			u.Axiom(name, u.Forall([]*Term{r}, []*Term{a}, u.And(u.Not(u.mk("=", SBool, a, u.Nil(SRef))), u.Eq(u.App("un"+name, SRef, a), r), u.Eq(x.birth(a), x.birth(r)))))
		}
	}
	x.locOf[t] = l
	return t
}

// term turns any value into a term.
func (x *Exec) term(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Loc:
		return x.locTerm(v)
	}
	panic(unsupported(fmt.Sprintf("value %T as term", v)))
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsupported("deref of " + typeName(t)))
}

// fieldAddr computes &p.f.
func (x *Exec) fieldAddr(st *State, p Val, pt types.Type, i int) *Loc {
	t := deref(pt)
	s, ok := x.te.transparentStruct(t)
	if !ok {
		os, isS := under(t).(*types.Struct)
		if !isS {
			panic(unsupported("field of opaque struct " + typeName(t)))
		}
		f := os.Field(i)
		name := "F:" + structName(t) + "." + f.Name()
		if _, ok := x.regSorts[name]; !ok {
			x.regSorts[name] = arrSort(SRef, x.te.sortOf(f.Type()))
		}
		return &Loc{region: name, ref: x.term(p), typ: f.Type(), owner: structName(t), field: f.Name()}
	}
	if tt, ok := p.(*Term); ok {
		if l := x.locOf[tt]; l != nil {
			p = l
		}
	}
	switch p := p.(type) {
	case *Loc:
		n := *p
		n.path = append(append([]int{}, p.path...), i)
		n.typ = s.Field(i).Type()
		return &n
	case *Term:
		return &Loc{region: x.fieldRegion(t, i), ref: p, typ: s.Field(i).Type(), owner: structName(t), field: s.Field(i).Name()}
	}
	panic(unsupported("fieldAddr"))
}

func (x *Exec) locBase(st *State, l *Loc) *Term {
	r := x.region(st, l.region)
	if l.ref == nil {
		return r
	}
	b := x.u.Select(r, l.ref)
	if l.idx != nil {
		b = x.u.Select(b, l.idx)
	}
	return b
}

// loadLoc reads an interior address.
func (x *Exec) loadLoc(st *State, l *Loc) *Term {
	b := x.locBase(st, l)
	for _, i := range l.path {
		b = x.u.Sel(x.u.dts[b.Sort], i, b)
	}
	x.setProv(b, l)
	return b
}

func (x *Exec) setProv(t *Term, l *Loc) {
	if l.field == "" || len(l.path) > 0 || t.lit {
		return
	}
	switch under(l.typ).(type) {
	case *types.Chan, *types.Map:
		if x.prov[t] == nil {
			x.prov[t] = &Prov{key: l.owner + "." + l.field, owner: l.ref}
		}
	}
}

// Prov remembers which struct field a channel or map lives in.
type Prov struct {
	key   string
	owner *Term
}

func (x *Exec) storeLoc(st *State, l *Loc, v *Term) {
	u := x.u
	x.setProv(v, l)
	if len(l.path) > 0 {
		b := x.locBase(st, l)
		v = x.update(b, l.path, v)
	}
	r := x.region(st, l.region)
	switch {
	case l.ref == nil:
		st.reg[l.region] = v
	case l.idx != nil:
		st.reg[l.region] = u.Store(r, l.ref, u.Store(u.Select(r, l.ref), l.idx, v))
	default:
		st.reg[l.region] = u.Store(r, l.ref, v)
	}
}

func (x *Exec) update(b *Term, path []int, v *Term) *Term {
	u := x.u
	d := u.dts[b.Sort]
	args := make([]*Term, len(d.Sels))
	for i := range args {
		args[i] = u.Sel(d, i, b)
	}
	if len(path) == 1 {
		args[path[0]] = v
	} else {
		args[path[0]] = x.update(args[path[0]], path[1:], v)
	}
	return u.Ctor(d, args...)
}

// load reads through a pointer value of type *t.
func (x *Exec) load(st *State, p Val, t types.Type) *Term {
	if tt, ok := p.(*Term); ok {
		if l := x.locOf[tt]; l != nil {
			p = l
		}
	}
	switch p := p.(type) {
	case *Loc:
		return x.loadLoc(st, p)
	case *Term:
		if s, ok := x.te.transparentStruct(t); ok {
			d := x.u.dts[x.te.sortOf(t)]
			args := make([]*Term, s.NumFields())
			for i := range args {
				args[i] = x.u.Select(x.region(st, x.fieldRegion(t, i)), p)
			}
			return x.u.Ctor(d, args...)
		}
		if a, ok := under(t).(*types.Array); ok {
			return x.u.Select(x.region(st, x.elemRegion(a.Elem())), p)
		}
		return x.u.Select(x.region(st, x.cellRegion(t)), p)
	}
	panic(unsupported("load"))
}

func (x *Exec) store(st *State, p Val, t types.Type, v *Term) {
	if tt, ok := p.(*Term); ok {
		if l := x.locOf[tt]; l != nil {
			p = l
		}
	}
	u := x.u
	switch p := p.(type) {
	case *Loc:
		x.storeLoc(st, p, v)
	case *Term:
		if s, ok := x.te.transparentStruct(t); ok {
			d := u.dts[x.te.sortOf(t)]
			for i := 0; i < s.NumFields(); i++ {
				reg := x.fieldRegion(t, i)
				fv := u.Sel(d, i, v)
				x.setProv(fv, &Loc{region: reg, ref: p, typ: s.Field(i).Type(), owner: structName(t), field: s.Field(i).Name()})
				st.reg[reg] = u.Store(x.region(st, reg), p, fv)
			}
			return
		}
		if a, ok := under(t).(*types.Array); ok {
			reg := x.elemRegion(a.Elem())
			st.reg[reg] = u.Store(x.region(st, reg), p, v)
			return
		}
		reg := x.cellRegion(t)
		st.reg[reg] = u.Store(x.region(st, reg), p, v)
	default:
		panic(unsupported("store"))
	}
}

// ---- maps and slices

func (x *Exec) mapDom(st *State, mt types.Type, m *Term) *Term {
	d, _ := x.mapRegions(mt)
	return x.u.Select(x.region(st, d), m)
}

func (x *Exec) mapVal(st *State, mt types.Type, m *Term) *Term {
	_, v := x.mapRegions(mt)
	return x.u.Select(x.region(st, v), m)
}

func (x *Exec) mapGet(st *State, mt types.Type, m, k *Term) (*Term, *Term) {
	u := x.u
	in := u.Select(x.mapDom(st, mt, m), k)
	return u.Ite(in, u.Select(x.mapVal(st, mt, m), k), x.te.zero(mapType(mt).Elem())), in
}

func (x *Exec) mapSet(st *State, mt types.Type, m, k, v *Term) {
	u := x.u
	d, vr := x.mapRegions(mt)
	dm, vm := x.region(st, d), x.region(st, vr)
	st.reg[d] = u.Store(dm, m, u.Store(u.Select(dm, m), k, u.True()))
	st.reg[vr] = u.Store(vm, m, u.Store(u.Select(vm, m), k, v))
}

func (x *Exec) mapDelete(st *State, mt types.Type, m, k *Term) {
	u := x.u
	d, _ := x.mapRegions(mt)
	dm := x.region(st, d)
	st.reg[d] = u.Store(dm, m, u.Store(u.Select(dm, m), k, u.False()))
}

func (x *Exec) newMap(st *State, mt types.Type) *Term {
	u := x.u
	r := x.newRef(st, "map")
	d, _ := x.mapRegions(mt)
	dm := x.region(st, d)
	_, inner := splitArr(dm.Sort)
	ks, _ := splitArr(inner)
	st.reg[d] = u.Store(dm, r, u.ConstArr(ks, u.False()))
	return r
}

// card is the number of keys of a domain.
func (x *Exec) card(dom *Term) *Term {
	u := x.u
	k, _ := splitArr(dom.Sort)
	name := "card!" + smtName(string(k))
	if !x.baseDone[name] {
		x.baseDone[name] = true
		d := u.BoundVar("d", dom.Sort)
		e := u.BoundVar("k", k)
		c := u.App(name, SInt, d)
		u.Axiom(name, u.Forall([]*Term{d}, []*Term{c}, u.Cmp(">=", c, u.Int(0))))
		w := u.App("witness!"+smtName(string(k)), k, d)
		u.Axiom(name, u.Forall([]*Term{d}, []*Term{c}, u.Or(u.Eq(c, u.Int(0)), u.Select(d, w))))
		sel := u.mk("select", SBool, d, e)
		u.Axiom(name, u.Forall([]*Term{d, e}, []*Term{c, sel}, u.Implies(sel, u.Cmp(">=", c, u.Int(1)))))
	}
	if dom.Op == "constarr" && dom.Args[0].Op == "false" {
		return u.Int(0)
	}
	return u.App(name, SInt, dom)
}

func (x *Exec) sref(s *Term) *Term { return x.u.Sel(x.u.dts[SSlice], 0, s) }
func (x *Exec) slen(s *Term) *Term { return x.u.Sel(x.u.dts[SSlice], 1, s) }

func (x *Exec) elems(st *State, et types.Type, s *Term) *Term {
	return x.u.Select(x.region(st, x.elemRegion(et)), x.sref(s))
}

// mem is the set of the first n elements of an array.
func (x *Exec) mem(arr, n *Term) *Term {
	u := x.u
	_, e := splitArr(arr.Sort)
	name := "mem!" + smtName(string(e))
	setS := arrSort(e, SBool)
	if !x.baseDone[name] {
		x.baseDone[name] = true
		a := u.BoundVar("a", arr.Sort)
		l := u.BoundVar("n", SInt)
		j := u.BoundVar("j", SInt)
		v := u.BoundVar("v", e)
		u.declare(name, []Sort{arr.Sort, SInt}, setS)
		m := u.mk(name, setS, a, l)
		aj := u.mk("select", e, a, j)
		u.Axiom(name, u.Forall([]*Term{a, l, j}, []*Term{m, aj},
			u.Implies(u.And(u.Cmp("<=", u.Int(0), j), u.Cmp("<", j, l)), u.mk("select", SBool, m, aj))))
		mv := u.mk("select", SBool, m, v)
		ix := u.App("idx!"+smtName(string(e)), SInt, a, l, v)
		u.Axiom(name, u.Forall([]*Term{a, l, v}, []*Term{mv},
			u.Implies(mv, u.And(u.Cmp("<=", u.Int(0), ix), u.Cmp("<", ix, l), u.Eq(u.mk("select", e, a, ix), v)))))
	}
	if n.Op == "0" {
		return u.ConstArr(e, u.False())
	}
	// an explicit last element
	if c, ok := litInt(n); ok && c.Sign() > 0 && c.IsInt64() && c.Int64() <= 4 {
		k := u.Int(c.Int64() - 1)
		return u.Store(x.mem(arr, k), u.Select(arr, k), u.True())
	}
	if n.Op == "+" && n.Args[1].Op == "1" {
		k := n.Args[0]
		return u.Ite(u.Cmp(">=", k, u.Int(0)), u.Store(x.mem(x.stripAt(arr, k), k), u.Select(arr, k), u.True()), u.ConstArr(e, u.False()))
	}
	return u.mkDecl(name, setS, arr, n)
}

// distinct says that the first n elements of an array are pairwise different.
func (x *Exec) distinct(arr, n *Term) *Term {
	u := x.u
	_, e := splitArr(arr.Sort)
	x.mem(arr, u.mkDecl("len!any", SInt)) // declares mem
	name := "distinct!" + smtName(string(e))
	if !x.baseDone[name] {
		x.baseDone[name] = true
		a := u.BoundVar("a", arr.Sort)
		l := u.BoundVar("n", SInt)
		k := u.BoundVar("k", SInt)
		u.declare(name, []Sort{arr.Sort, SInt}, SBool)
		d := u.mk(name, SBool, a, l)
		ak := u.mk("select", e, a, k)
		m := u.mk("mem!"+smtName(string(e)), arrSort(e, SBool), a, k)
		u.Axiom(name, u.Forall([]*Term{a, l, k}, []*Term{d, ak},
			u.Implies(u.And(d, u.Cmp("<=", u.Int(0), k), u.Cmp("<", k, l)), u.Not(u.mk("select", SBool, m, ak)))))
	}
	if n.Op == "0" || n.Op == "1" {
		return u.True()
	}
	if n.Op == "+" && n.Args[1].Op == "1" {
		k := n.Args[0]
		b := x.stripAt(arr, k)
		return u.Or(u.Cmp("<", k, u.Int(1)), u.And(x.distinct(b, k), u.Not(u.Select(x.mem(b, k), u.Select(arr, k)))))
	}
	return u.mkDecl(name, SBool, arr, n)
}

// stripAt removes a store at an index at or beyond n, which the first n
// elements do not depend on.
func (x *Exec) stripAt(arr, n *Term) *Term {
	for arr.Op == "store" && arr.Args[1] == n {
		arr = arr.Args[0]
	}
	return arr
}

func (u *Universe) mkDecl(name string, s Sort, args ...*Term) *Term {
	return u.App(name, s, args...)
}

func (x *Exec) memOf(st *State, et types.Type, s *Term) *Term {
	return x.mem(x.elems(st, et, s), x.slen(s))
}

func trimStar(s string) string { return strings.TrimPrefix(s, "*") }
