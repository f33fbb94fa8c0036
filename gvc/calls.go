package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callOperands(fr *Frame, st *State, call *ssa.CallCommon) (Val, []Val) {
	var fn Val
	if _, ok := call.Value.(*ssa.Builtin); !ok {
		fn = x.val(fr, st, call.Value)
	}
	var args []Val
	for _, a := range call.Args {
		args = append(args, x.val(fr, st, a))
	}
	return fn, args
}

func (x *Exec) callInstr(fr *Frame, st *State, call *ssa.CallCommon, in ssa.Instruction, k Cont) {
	fn, args := x.callOperands(fr, st, call)
	x.callResolved(fr, st, call, fn, args, in, k)
}

func sigString(sig *types.Signature) string {
	var b strings.Builder
	b.WriteString("func(")
	for i := 0; i < sig.Params().Len(); i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(typeName(normType(sig.Params().At(i).Type())))
	}
	b.WriteString(")")
	switch sig.Results().Len() {
	case 0:
	case 1:
		b.WriteString(" " + typeName(normType(sig.Results().At(0).Type())))
	default:
		b.WriteString(" (")
		for i := 0; i < sig.Results().Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(typeName(normType(sig.Results().At(i).Type())))
		}
		b.WriteString(")")
	}
	return b.String()
}

func ret(k Cont, st *State, vals ...Val) { k(st, Outcome{kind: oReturn, vals: vals}) }

func (x *Exec) callResolved(fr *Frame, st *State, call *ssa.CallCommon, fnv Val, args []Val, in ssa.Instruction, k Cont) {
	x.budget()
	pos := in.Pos()
	if pos == token.NoPos {
		pos = call.Pos()
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, b, call, args, pos, k)
		return
	}
	if call.IsInvoke() {
		recv := x.term(fnv)
		x.safetyCall(st, recv, pos)
		x.invoke(fr, st, call, recv, args, pos, k)
		return
	}
	if fn := call.StaticCallee(); fn != nil {
		var binds []Val
		if t, ok := fnv.(*Term); ok {
			if c := x.clos[t]; c != nil {
				binds = c.binds
			}
		}
		x.callFn(fr, st, fn, args, binds, call.Signature(), pos, k)
		return
	}
	x.callValue(fr, st, x.term(fnv), call.Signature(), args, pos, k)
}

func (x *Exec) safetyCall(st *State, recv *Term, pos token.Pos) {
	x.oblige(st, x.defTags, "safety", "method call on nil interface", x.u.Not(x.u.Eq(recv, x.u.Nil(SAny))), x.pos(pos))
}

// callValue calls a function value.
func (x *Exec) callValue(fr *Frame, st *State, f *Term, sig *types.Signature, args []Val, pos token.Pos, k Cont) {
	if c := x.clos[f]; c != nil {
		x.callFn(fr, st, c.fn, args, c.binds, sig, pos, k)
		return
	}
	if f.Op == "ite" {
		x.branch(st, f.Args[0], x.pos(pos), func(s *State, b bool) {
			i := 2
			if b {
				i = 1
			}
			x.callValue(fr, s, f.Args[i], sig, args, pos, k)
		})
		return
	}
	x.oblige(st, x.defTags, "safety", "call of nil function", x.u.Not(x.u.Eq(f, x.u.Nil(SFn))), x.pos(pos))
	key := sigString(sig)
	spec := x.p.sp.Funcs["callback:"+key]
	if spec == nil {
		x.note2("callback of type " + key + " assumed to have no effect on the state")
		x.havocResults(st, sig, k)
		return
	}
	if spec.Pure != "" {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.term(a))
		}
		x.used["callback:"+key] = true
		ret(k, st, x.pureApp(sig, f, ts))
		return
	}
	vals := append([]Val{f}, args...)
	ts := []types.Type{sig}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	x.useContract(fr, st, spec, vals, ts, sig, pos, k)
}

func (x *Exec) note2(s string) { x.notes[s] = true }

func (x *Exec) havocResults(st *State, sig *types.Signature, k Cont) {
	var vals []Val
	clk := x.u.Fresh("clock", SInt)
	st.assume(x.u.Cmp("<=", st.clock, clk))
	st.clock = clk
	for i := 0; i < sig.Results().Len(); i++ {
		t := x.u.Fresh("res", x.te.sortOf(sig.Results().At(i).Type()))
		if b := x.bornBy(t, clk); b != nil {
			st.assume(b)
		}
		vals = append(vals, t)
	}
	ret(k, st, vals...)
}

// invoke calls an interface method.
func (x *Exec) invoke(fr *Frame, st *State, call *ssa.CallCommon, recv *Term, args []Val, pos token.Pos, k Cont) {
	m := call.Method
	key := m.Name()
	var spec *FuncSpec
	if n, ok := normType(call.Value.Type()).(*types.Named); ok {
		spec = x.p.sp.Funcs["iface:"+n.Obj().Name()+"."+key]
	}
	if spec == nil {
		spec = x.p.sp.Funcs["iface:"+key]
	}
	sig := m.Type().(*types.Signature)
	if spec == nil {
		x.note2("interface method " + key + " assumed to have no effect on the state")
		x.havocResults(st, sig, k)
		return
	}
	vals := append([]Val{recv}, args...)
	ts := []types.Type{call.Value.Type()}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	x.useContract(fr, st, spec, vals, ts, sig, pos, k)
}

// callFn calls a known function.
func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, sig *types.Signature, pos token.Pos, k Cont) {
	key := funcKey(fn)
	inRepo := fn.Pkg != nil && x.p.repo[fn.Pkg.Pkg.Path()] || fn.Parent() != nil || fn.Synthetic != ""
	if inRepo && len(fn.Blocks) > 0 {
		if fn.Parent() == nil && fn.Synthetic == "" {
			spec := x.p.specOf(fn)
			switch {
			case spec == nil || spec.Root || x.dropped[spec.Key] && fn != x.fn:
				// a root's contract is about a whole call from outside
			case spec.Spawned && st.child != nil:
				st.child.spawns = append(st.child.spawns, spawnRec{spec, args, fn, x.pos(pos), x.trial})
				ret(k, st)
				return
			case spec.Spawned:
			default:
				ts := make([]types.Type, len(fn.Params))
				for i, p := range fn.Params {
					ts[i] = p.Type()
				}
				x.useContract(fr, st, spec, args, ts, fn.Signature, pos, k)
				return
			}
			x.inlined[key] = true
		}
		x.inline(fr, st, fn, args, binds, nil, k)
		return
	}
	if x.native(fr, st, key, fn, args, sig, pos, k) {
		return
	}
	if spec := x.p.sp.Funcs["extern:"+key]; spec != nil {
		x.useExtern(fr, st, spec, fn, args, pos, k)
		return
	}
	x.note2("external function " + key + " assumed to have no effect on the state")
	x.havocResults(st, fn.Signature, k)
}

func (x *Exec) useExtern(fr *Frame, st *State, spec *FuncSpec, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
	var ts []types.Type
	if r := fn.Signature.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ts = append(ts, fn.Signature.Params().At(i).Type())
	}
	x.useContract(fr, st, spec, args, ts, fn.Signature, pos, k)
}

func (x *Exec) bindParams(spec *FuncSpec, args []Val, ts []types.Type) map[string]SV {
	vars := map[string]SV{}
	for i, n := range spec.Params {
		if i >= len(args) {
			break
		}
		sv := SV{typ: ts[i]}
		switch v := args[i].(type) {
		case *Term:
			sv.t = v
			if l := x.locOf[v]; l != nil {
				if _, ok := under(ts[i]).(*types.Pointer); ok {
					_ = l
				}
			}
		case *Loc:
			sv.t = x.locTerm(v)
		default:
			continue
		}
		vars[n] = sv
	}
	return vars
}

// useContract replaces a call by the contract of what is called.
func (x *Exec) useContract(fr *Frame, st *State, spec *FuncSpec, args []Val, ts []types.Type, sig *types.Signature, pos token.Pos, k Cont) {
	u := x.u
	x.used[spec.Kind+":"+spec.Key] = true
	vars := x.bindParams(spec, args, ts)
	if spec.Kind != "func" {
		for n, v := range x.rootCtx.vars {
			if vars["$"+n].t == nil {
				vars["$"+n] = v
			}
		}
	}
	pkg := specPkg(spec)
	p := x.pos(pos)
	if spec.Role != "" && spec.Role != st.role {
		x.fault(st, x.itemTags(spec.Requires), "role", spec.Key+" is only called on goroutine "+spec.Role, "", p)
	}
	for _, l := range spec.Holds {
		if st.held[l] == nil {
			x.fault(st, x.lockTags(l), "lock", spec.Key+" is called with the lock held", "", p)
		}
	}
	c := &Ctx{x: x, st: st, old: st, entry: x.root, vars: vars, pkg: pkg}
	if len(spec.Requires) > 0 {
		n := len(x.obls)
		x.obligeItems(c, spec.Requires, "precondition of "+spec.Key, p, x.defTags)
		if spec.Helper && spec.Kind == "func" {
			for _, o := range x.obls[n:] {
				o.helper = spec.Key
			}
		}
	}
	if spec.Blocks {
		var ls []listen
		if spec.Prompt {
			ls = []listen{{ch: u.Nil(SRef), prompt: true}}
		}
		x.blockAt(st, p, ls, vars)
	}
	old := st.clone()
	c.old = old
	clk := u.Fresh("clock", SInt)
	st.assume(u.Cmp("<=", st.clock, clk))
	st.clock = clk
	x.havocModifies(c, spec)
	// results
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		var v *Term
		if i == 0 && spec.Is != nil {
			sv := c.eval(spec.Is)
			v = sv.t
			if sv.nil {
				v = x.te.zero(rt)
			}
			if v.Sort == SAny || x.te.sortOf(rt) == v.Sort {
			} else if x.te.sortOf(rt) == SAny && sv.typ != nil {
				v = x.box(sv.typ, v)
			}
		} else {
			nm := "res"
			if i < len(spec.Results) {
				nm = spec.Results[i]
			}
			v = u.Fresh("r_"+nm, x.te.sortOf(rt))
			if b := x.bornBy(v, clk); b != nil {
				st.assume(b)
			}
		}
		vals = append(vals, v)
		if i < len(spec.Results) {
			vars[spec.Results[i]] = SV{t: v, typ: rt}
		}
	}
	if spec.MayPanic {
		s := st.clone()
		pv := u.Fresh("panic", SAny)
		s.assume(u.Not(u.Eq(pv, u.Nil(SAny))))
		s.note("%s: %s panics", p, spec.Key)
		cp := &Ctx{x: x, st: s, old: old, entry: x.root, vars: map[string]SV{}, pkg: pkg}
		for n, v := range vars {
			cp.vars[n] = v
		}
		cp.vars["$panic"] = SV{t: pv, typ: types.NewInterfaceType(nil, nil)}
		cp.doAssign(spec.PanicDo)
		cp.assumeItems(spec.OnPanic)
		k(s, Outcome{kind: oPanic, pv: pv})
	}
	if spec.MayExit {
		s := st.clone()
		s.note("%s: %s calls Goexit", p, spec.Key)
		if g := x.p.sp.Ghosts["exited"]; g != nil {
			s.reg[x.ghostRegion(g)] = u.True()
		}
		k(s, Outcome{kind: oExit})
	}
	c.doAssign(spec.Do)
	c.assumeItems(spec.Ensures)
	ret(k, st, vals...)
}

func specPkg(spec *FuncSpec) string {
	if spec.Kind == "func" {
		return strings.Split(spec.Key, ".")[0]
	}
	return ""
}

func (x *Exec) itemTags(items []InvItem) []string {
	return x.defTags
}

// modified lists the regions a contract allows to change; a nil ref list means
// the whole region.
func (x *Exec) havocModifies(c *Ctx, spec *FuncSpec) {
	u := x.u
	for _, m := range spec.Modifies {
		for _, r := range x.modRegions(c.x, m, specPkg(spec)) {
			switch {
			case strings.HasPrefix(r, "new "):
				r = r[4:]
				cur := x.region(c.st, r)
				t := x.havocRegion(c.st, r, c.st.clock)
				k, _ := splitArr(t.Sort)
				i := u.BoundVar("i", k)
				sel := u.mk("select", u.Select(t, i).Sort, t, i)
				c.st.assume(u.Forall([]*Term{i}, []*Term{sel}, u.Implies(u.Cmp("<=", x.birth(i), c.old.clock), u.Eq(sel, u.Select(cur, i)))))
				x.havocOf[t] = &havocInfo{base: cur}
			default:
				x.havocRegion(c.st, r, c.st.clock)
			}
		}
		// contents of a particular map
		if e := x.modMap(m); e != nil {
			v := c.eval(e)
			d, vr := x.mapRegions(v.typ)
			ref := v.t
			for _, r := range []string{d, vr} {
				cur := x.region(c.st, r)
				_, es := splitArr(cur.Sort)
				f := u.Fresh("contents", es)
				x.wellFormed(f, c.st.clock)
				c.st.reg[r] = u.Store(cur, ref, f)
			}
		}
	}
}

// modMap parses "param.field" naming a map whose contents change.
func (x *Exec) modMap(m string) *Expr {
	if !strings.HasPrefix(m, "map:") {
		return nil
	}
	parts := strings.Split(m[4:], ".")
	e := &Expr{Kind: "id", Name: parts[0]}
	for _, f := range parts[1:] {
		e = &Expr{Kind: "field", Name: f, Args: []*Expr{e}}
	}
	return e
}

func (x *Exec) modRegions(_ *Exec, m, pkg string) []string {
	switch {
	case strings.HasPrefix(m, "map:"):
		return nil
	case strings.HasPrefix(m, "A:"):
		t := x.p.lookupType(m[2:], pkg)
		if t == nil {
			panic(fmt.Errorf("modifies: unknown type %s", m))
		}
		return []string{"new " + x.elemRegion(t)}
	}
	if g := x.p.sp.Ghosts[m]; g != nil {
		return []string{x.ghostRegion(g)}
	}
	i := strings.LastIndex(m, ".")
	if i < 0 {
		panic(fmt.Errorf("modifies: %s", m))
	}
	t := x.p.lookupType(m[:i], pkg)
	if t == nil {
		panic(fmt.Errorf("modifies: unknown type %s", m[:i]))
	}
	s, _ := x.te.transparentStruct(t)
	for j := 0; j < s.NumFields(); j++ {
		if s.Field(j).Name() == m[i+1:] {
			return []string{x.fieldRegion(t, j)}
		}
	}
	panic(specError{"modifies: no field " + m})
}

// ---- builtins

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, call *ssa.CallCommon, args []Val, pos token.Pos, k Cont) {
	u := x.u
	switch b.Name() {
	case "len":
		t := x.term(args[0])
		switch ty := under(call.Args[0].Type()).(type) {
		case *types.Map:
			x.accessMap(st, t, false, pos)
			ret(k, st, x.card(x.mapDom(st, call.Args[0].Type(), t)))
		case *types.Slice:
			ret(k, st, x.slen(t))
		case *types.Basic:
			n := u.App("strlen", SInt, t)
			if !x.baseDone["strlen"] {
				x.baseDone["strlen"] = true
				s := u.BoundVar("s", SStr)
				l := u.App("strlen", SInt, s)
				u.Axiom("strlen", u.Forall([]*Term{s}, []*Term{l}, u.And(u.Cmp(">=", l, u.Int(0)), u.Eq(u.Eq(l, u.Int(0)), u.Eq(s, u.Str(""))))))
			}
			ret(k, st, n)
		case *types.Array:
			ret(k, st, u.Int(ty.Len()))
		default:
			n := u.Fresh("len", SInt)
			st.assume(u.Cmp(">=", n, u.Int(0)))
			ret(k, st, n)
		}
	case "cap":
		n := u.Fresh("cap", SInt)
		t := x.term(args[0])
		if t.Sort == SSlice {
			st.assume(u.Cmp(">=", n, x.slen(t)))
		}
		ret(k, st, n)
	case "append":
		et, ok := under(call.Args[0].Type()).(*types.Slice)
		if !ok || len(args) < 2 || x.term(args[1]).Sort != SSlice {
			ret(k, st, x.havocVal(call.Signature().Results().At(0).Type(), "append"))
			return
		}
		a, c := x.term(args[0]), x.term(args[1])
		r := x.newRef(st, "append")
		reg := x.elemRegion(et.Elem())
		src := x.elems(st, et.Elem(), a)
		add := x.elems(st, et.Elem(), c)
		n, m := x.slen(a), x.slen(c)
		var arr *Term
		if lm, ok := litInt(m); ok && lm.IsInt64() && lm.Int64() <= 8 {
			arr = src
			for i := int64(0); i < lm.Int64(); i++ {
				arr = u.Store(arr, u.Arith("+", n, u.Int(i)), u.Select(add, u.Int(i)))
			}
		} else {
			arr = u.Fresh("appended", src.Sort)
			j := u.BoundVar("j", SInt)
			sel := u.mk("select", u.Select(src, j).Sort, arr, j)
			st.assume(u.Forall([]*Term{j}, []*Term{sel}, u.Eq(sel, u.Ite(u.Cmp("<", j, n), u.Select(src, j), u.Select(add, u.Arith("-", j, n))))))
		}
		st.reg[reg] = u.Store(x.region(st, reg), r, arr)
		x.note2("append is modelled as always copying")
		ret(k, st, u.Ctor(u.dts[SSlice], r, u.Arith("+", n, m)))
	case "delete":
		m := x.term(args[0])
		x.accessMap(st, m, true, pos)
		x.mapDelete(st, call.Args[0].Type(), m, x.term(args[1]))
		ret(k, st)
	case "clear":
		m := x.term(args[0])
		if _, ok := under(call.Args[0].Type()).(*types.Map); !ok {
			panic(unsupported("clear of a slice"))
		}
		x.accessMap(st, m, true, pos)
		d, _ := x.mapRegions(call.Args[0].Type())
		dm := x.region(st, d)
		_, inner := splitArr(dm.Sort)
		ks, _ := splitArr(inner)
		st.reg[d] = u.Store(dm, m, u.ConstArr(ks, u.False()))
		ret(k, st)
	case "close":
		x.closeOp(st, x.term(args[0]), pos)
		ret(k, st)
	case "recover":
		n := len(st.panics)
		if n == 0 || st.panics[n-1].val == nil || st.panics[n-1].recovered {
			ret(k, st, u.Nil(SAny))
			return
		}
		st.panics[n-1].recovered = true
		v := st.panics[n-1].val
		ret(k, st, v)
	case "print", "println":
		ret(k, st)
	case "min", "max":
		a := x.term(args[0])
		for _, bv := range args[1:] {
			c := x.term(bv)
			cond := u.Cmp("<", a, c)
			if b.Name() == "max" {
				cond = u.Cmp("<", c, a)
			}
			a = u.Ite(cond, a, c)
		}
		ret(k, st, a)
	case "copy":
		panic(unsupported("copy"))
	case "ssa:wrapnilchk":
		ret(k, st, args[0])
	default:
		panic(unsupported("builtin " + b.Name()))
	}
}

// ---- library functions with built-in rules

func (x *Exec) native(fr *Frame, st *State, key string, fn *ssa.Function, args []Val, sig *types.Signature, pos token.Pos, k Cont) bool {
	u := x.u
	loc := func(i int) *Loc {
		switch v := args[i].(type) {
		case *Loc:
			return v
		case *Term:
			return x.locOf[v]
		}
		return nil
	}
	switch key {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
		l := loc(0)
		if l == nil || l.field == "" {
			panic(unsupported("lock that is not a field"))
		}
		x.lock(st, l, pos)
		ret(k, st)
		return true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		l := loc(0)
		if l == nil || l.field == "" {
			panic(unsupported("lock that is not a field"))
		}
		if x.unlock(st, l, pos) {
			ret(k, st)
		}
		return true
	case "sort.Strings", "sort.Ints", "slices.Sort":
		// the same elements, in some order
		t := x.term(args[0])
		if t == nil || t.Sort != SSlice {
			return false
		}
		bt, ok := under(sig.Params().At(0).Type()).(*types.Slice)
		if !ok {
			return false
		}
		reg := x.elemRegion(bt.Elem())
		src := x.elems(st, bt.Elem(), t)
		arr := u.Fresh("sorted", src.Sort)
		n := x.slen(t)
		st.assume(u.Eq(x.mem(arr, n), x.mem(src, n)))
		st.assume(u.Implies(x.distinct(src, n), x.distinct(arr, n)))
		st.reg[reg] = u.Store(x.region(st, reg), x.sref(t), arr)
		x.note2(key + " is assumed to permute its argument")
		ret(k, st)
		return true
	case "sync.Mutex.TryLock":
		panic(unsupported("TryLock"))
	case "sync.Cond.Wait":
		l := loc(0)
		if l == nil {
			panic(unsupported("cond that is not a field"))
		}
		x.condWait(st, l, pos)
		ret(k, st)
		return true
	case "sync.Cond.Broadcast", "sync.Cond.Signal":
		l := loc(0)
		if l == nil {
			panic(unsupported("cond that is not a field"))
		}
		if strings.HasSuffix(key, "Broadcast") {
			delete(st.dirty, l.owner+"."+l.field)
		}
		ret(k, st)
		return true
	case "sync.WaitGroup.Add":
		n, ok := litInt(x.term(args[1]))
		if !ok || n.Sign() < 0 {
			panic(unsupported("WaitGroup.Add of a variable"))
		}
		x.wgAdd(st, int(n.Int64()), pos)
		ret(k, st)
		return true
	case "sync.WaitGroup.Done":
		x.wgDone(st, pos)
		ret(k, st)
		return true
	case "sync.WaitGroup.Wait":
		if spec := x.p.sp.Funcs["extern:"+key]; spec != nil {
			c := &Ctx{x: x, st: st, old: st, entry: x.root, vars: map[string]SV{}, pkg: x.rootCtx.pkg}
			for n, v := range x.rootCtx.vars {
				c.vars["$"+n] = v
			}
			x.obligeItems(c, spec.Requires, "wait for the wait group", x.pos(pos), x.wgTags())
			x.used["extern:"+key] = true
		}
		if st.child != nil {
			st.child.waits = true
			st.wgWaitAt = append(st.wgWaitAt[:len(st.wgWaitAt):len(st.wgWaitAt)], st.tokD)
		}
		x.blockAt(st, x.pos(pos), nil, nil)
		if g := x.p.sp.Ghosts["wgwaited"]; g != nil {
			st.reg[x.ghostRegion(g)] = u.True()
		}
		ret(k, st)
		return true
	case "sync.WaitGroup.Go":
		x.wgAdd(st, 1, pos)
		x.spawnChild(fr, st, x.term(args[1]), nil, pos, nil, true, func(s *State) { ret(k, s) })
		return true
	case "tomb.Tomb.Go":
		var self *Term
		if l := loc(0); l != nil {
			self = x.locTerm(l)
		} else {
			self = x.term(args[0])
		}
		x.tombGo(fr, st, self, x.term(args[1]), pos, func(s *State) { ret(k, s) })
		return true
	case "pprof.Do":
		ctx := u.App("pprofctx", SAny, x.term(args[0]))
		x.callValue(fr, st, x.term(args[2]), fn.Signature.Params().At(2).Type().Underlying().(*types.Signature), []Val{ctx}, pos, k)
		return true
	case "atomic.CompareAndSwapInt32", "atomic.CompareAndSwapInt64", "atomic.CompareAndSwapUint32", "atomic.Int32.CompareAndSwap", "atomic.Bool.CompareAndSwap",
		"atomic.Uint32.CompareAndSwap", "atomic.SwapInt32", "atomic.SwapUint32", "atomic.Int32.Swap", "atomic.Bool.Swap", "atomic.Uint32.Swap":
		return x.onceOp(st, key, fn, loc(0), args, pos, k)
	case "errors.As":
		x.errorsAs(st, args, pos, k)
		return true
	case "sync.Once.Do":
		panic(unsupported("sync.Once"))
	}
	return false
}

// onceOp: an atomic operation on a flag that is only ever raised.
func (x *Exec) onceOp(st *State, key string, fn *ssa.Function, l *Loc, args []Val, pos token.Pos, k Cont) bool {
	u := x.u
	if l == nil || l.ref == nil || x.p.sp.Onces[l.owner+"."+l.field] == nil {
		return false
	}
	o := x.p.sp.Onces[l.owner+"."+l.field]
	isZero := func(t *Term) *Term {
		if t.Sort == SBool {
			return u.Not(t)
		}
		return u.Eq(t, u.Int(0))
	}
	p := x.pos(pos)
	g := x.p.sp.Ghosts[o.Ghost]
	r := x.ghostRegion(g)
	won := u.Fresh("won", SBool)
	if strings.Contains(key, "CompareAndSwap") {
		x.oblige(st, o.Tags, "once", l.field+" is only ever raised", u.And(isZero(x.term(args[1])), u.Not(isZero(x.term(args[2])))), p)
	} else {
		x.oblige(st, o.Tags, "once", l.field+" is only ever raised", u.Not(isZero(x.term(args[1]))), p)
	}
	// who has won before does not win again
	st.assume(u.Implies(won, u.Not(u.Select(x.region(st, r), l.ref))))
	st.reg[r] = u.Store(x.region(st, r), l.ref, u.Or(won, u.Select(x.region(st, r), l.ref)))
	if strings.Contains(key, "CompareAndSwap") {
		ret(k, st, won)
		return true
	}
	v := u.Fresh("swapped", x.te.sortOf(fn.Signature.Results().At(0).Type()))
	st.assume(u.Eq(won, isZero(v)))
	ret(k, st, v)
	return true
}

func (x *Exec) errorsAs(st *State, args []Val, pos token.Pos, k Cont) {
	u := x.u
	e := x.term(args[0])
	box := x.term(args[1]) // pointer to target, boxed
	pt := x.boxedType[box.Op]
	if pt == nil || len(box.Args) != 1 {
		panic(unsupported("errors.As target"))
	}
	t := deref(pt)
	ok := x.errAs(e, t)
	v := x.errAsVal(e, t)
	if bt := x.boxedType[e.Op]; bt != nil && len(e.Args) == 1 && !types.Identical(bt, t) {
		// an error that wraps nothing is found as nothing but itself
		ms := types.NewMethodSet(bt)
		wraps := false
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "Unwrap", "As":
				wraps = true
			}
		}
		if _, isI := under(t).(*types.Interface); !wraps && !isI {
			st.assume(u.Not(ok))
		}
	}
	cell := box.Args[0]
	cur := x.load(st, cell, t)
	x.store(st, cell, t, u.Ite(ok, v, cur))
	x.assumeTypeInv(st, t, v, ok)
	ret(k, st, ok)
}

func (x *Exec) errAs(e *Term, t types.Type) *Term {
	u := x.u
	n := smtName(typeName(normType(t)))
	name := "erras!" + n
	if !x.baseDone[name] {
		x.baseDone[name] = true
		b := u.BoundVar("e", SAny)
		a := u.App(name, SBool, b)
		u.Axiom(name, u.Not(u.App(name, SBool, u.Nil(SAny))))
		if _, isI := under(t).(*types.Interface); !isI {
			v := u.App("errasval!"+n, x.te.sortOf(t), b)
			un := x.te.Unbox(t, b)
			u.Axiom(name, u.Forall([]*Term{b}, []*Term{a}, u.Implies(u.And(u.Eq(u.App("dyntype", SInt, b), x.te.tag(t)), u.Not(u.Eq(b, u.Nil(SAny)))), u.And(a, u.Eq(v, un)))))
		}
	}
	return u.App(name, SBool, e)
}

func (x *Exec) errAsVal(e *Term, t types.Type) *Term {
	return x.u.App("errasval!"+smtName(typeName(normType(t))), x.te.sortOf(t), e)
}

// bodyCall returns the function a bound-method wrapper calls.
func boundTarget(fn *ssa.Function) *ssa.Function {
	if !strings.HasSuffix(fn.Name(), "$bound") && !strings.HasSuffix(fn.Name(), "$thunk") {
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				return c.Call.StaticCallee()
			}
		}
	}
	return nil
}
