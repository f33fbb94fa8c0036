package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// SV is a specification value: a term, with its Go type where known.
type SV struct {
	t   *Term
	typ types.Type
	loc *Loc
	nil bool
}

// Ctx is the context a specification expression is evaluated in.
type Ctx struct {
	x     *Exec
	st    *State
	old   *State
	entry *State
	now   *State
	vars  map[string]SV
	goal  bool // top-level universal quantifiers may be skolemized
	pkg   string
}

type specError struct{ msg string }

func (e specError) Error() string { return e.msg }

func (c *Ctx) fail(e *Expr, f string, a ...any) {
	panic(specError{fmt.Sprintf("%s: %s", e.Pos, fmt.Sprintf(f, a...))})
}

func (c *Ctx) with(name string, v SV) *Ctx {
	n := *c
	n.vars = make(map[string]SV, len(c.vars)+1)
	for k, x := range c.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (c *Ctx) noGoal() *Ctx {
	if !c.goal {
		return c
	}
	n := *c
	n.goal = false
	return &n
}

// sortByName resolves a type name of the contract language.
func (x *Exec) sortByName(n, pkg string) (Sort, types.Type) {
	switch n {
	case "string":
		return SStr, types.Typ[types.String]
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "int":
		return SInt, types.Typ[types.Int]
	case "real":
		return SReal, types.Typ[types.Float64]
	case "any":
		return SAny, types.NewInterfaceType(nil, nil)
	case "ref":
		return SRef, nil
	case "fn":
		return SFn, nil
	case "slice":
		return SSlice, nil
	}
	if strings.HasPrefix(n, "[") && !strings.HasPrefix(n, "[]") {
		depth, i := 0, 0
		for i = 0; i < len(n); i++ {
			if n[i] == '[' {
				depth++
			}
			if n[i] == ']' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		k, _ := x.sortByName(n[1:i], pkg)
		v, _ := x.sortByName(n[i+1:], pkg)
		return arrSort(k, v), nil
	}
	if t := x.p.lookupType(n, pkg); t != nil {
		return x.te.sortOf(t), t
	}
	panic(specError{"unknown type " + n})
}

func (c *Ctx) evalBool(e *Expr) *Term {
	v := c.eval(e)
	if v.t == nil || v.t.Sort != SBool {
		c.fail(e, "not a boolean")
	}
	return v.t
}

func (c *Ctx) coerce(e *Expr, a, b SV) (SV, SV) {
	if a.nil && b.nil {
		c.fail(e, "nil with nil")
	}
	if a.nil {
		a = SV{t: c.x.u.Nil(b.t.Sort), typ: b.typ}
	}
	if b.nil {
		b = SV{t: c.x.u.Nil(a.t.Sort), typ: a.typ}
	}
	if a.t.Sort != b.t.Sort {
		switch {
		case a.t.Sort == SAny && b.typ != nil:
			b = SV{t: c.x.box(b.typ, b.t), typ: a.typ}
		case b.t.Sort == SAny && a.typ != nil:
			a = SV{t: c.x.box(a.typ, a.t), typ: b.typ}
		}
	}
	return a, b
}

// boxAxiom declares the axioms of a boxing function.
func (x *Exec) boxAxiom(b *Term) {
	if x.baseDone[b.Op] || !strings.HasPrefix(b.Op, "box!") {
		return
	}
	x.baseDone[b.Op] = true
	u := x.u
	v := u.BoundVar("v", b.Args[0].Sort)
	bv := u.mk(b.Op, SAny, v)
	tagN := x.boxTag[b.Op]
	un := u.App("un"+b.Op, b.Args[0].Sort, bv)
	u.Axiom(b.Op, u.Forall([]*Term{v}, []*Term{bv}, u.And(
		u.Eq(u.App("dyntype", SInt, bv), tagN),
		u.Eq(un, v),
		u.Not(u.mk("=", SBool, bv, u.Nil(SAny))))))
}

// box wraps TypeEnv.Box with its axioms.
func (x *Exec) box(t types.Type, v *Term) *Term {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	b := x.te.Box(t, v)
	return x.boxed(t, b)
}

func (x *Exec) boxed(t types.Type, b *Term) *Term {
	if x.boxTag[b.Op] == nil {
		x.boxTag[b.Op] = x.te.tag(t)
	}
	x.boxedType[b.Op] = t
	x.boxAxiom(b)
	return b
}

func (c *Ctx) eval(e *Expr) SV {
	x, u := c.x, c.x.u
	switch e.Kind {
	case "num":
		if strings.Contains(e.Name, ".") {
			r, _ := new(big.Rat).SetString(e.Name)
			return SV{t: u.Real(r), typ: types.Typ[types.Float64]}
		}
		n, _ := new(big.Int).SetString(e.Name, 10)
		return SV{t: u.BigInt(n), typ: types.Typ[types.Int]}
	case "str":
		return SV{t: u.Str(e.Name), typ: types.Typ[types.String]}
	case "bool":
		return SV{t: u.Bool(e.Name == "true"), typ: types.Typ[types.Bool]}
	case "nil":
		return SV{nil: true}
	case "id":
		if v, ok := c.vars[e.Name]; ok {
			return v
		}
		if g := x.p.sp.Ghosts[e.Name]; g != nil {
			st := c.st
			if g.Event && c.now != nil {
				st = c.now
			}
			v := SV{t: x.region(st, x.ghostRegion(g))}
			if strings.HasPrefix(g.Type, "map[") {
				_, v.typ = x.sortByName(g.Type, c.pkg)
			}
			return v
		}
		if p := x.p.sp.Preds[e.Name]; p != nil && len(p.Params) == 0 {
			return c.eval(p.Body)
		}
		if f := x.p.sp.Fns[e.Name]; f != nil && len(f.Args) == 0 {
			s, ty := x.sortByName(f.Res, c.pkg)
			return SV{t: u.Const("fn!"+f.Name, s), typ: ty}
		}
		if v, ok := x.p.constant(e.Name, c.pkg); ok {
			return v(x)
		}
		c.fail(e, "unknown name %s", e.Name)
	case "field":
		// package-qualified constant or variable
		if e.Args[0].Kind == "id" {
			if _, ok := c.vars[e.Args[0].Name]; !ok && x.p.sp.Ghosts[e.Args[0].Name] == nil {
				if v, ok := x.p.constant(e.Args[0].Name+"."+e.Name, c.pkg); ok {
					return v(x)
				}
			}
		}
		b := c.eval(e.Args[0])
		if b.typ == nil {
			c.fail(e, "field %s of a value without a Go type", e.Name)
		}
		t := b.typ
		if p, ok := under(t).(*types.Pointer); ok {
			st := p.Elem()
			i, ft := c.field(e, st)
			_ = ft
			var base Val = b.t
			if b.loc != nil {
				base = b.loc
			}
			l := x.fieldAddr(c.st, base, t, i)
			if s, opaque := x.opaque(l.typ); opaque && typeName(s) != "time.Time" {
				return SV{loc: l, typ: l.typ, t: u.Const("opaque!", SRef)}
			}
			v := SV{t: x.loadLoc(c.st, l), typ: l.typ, loc: l}
			return v
		}
		i, ft := c.field(e, t)
		if b.loc != nil {
			n := *b.loc
			n.path = append(append([]int{}, n.path...), i)
			n.typ = ft
			return SV{t: u.Sel(u.dts[b.t.Sort], i, b.t), typ: ft, loc: &n}
		}
		return SV{t: u.Sel(u.dts[b.t.Sort], i, b.t), typ: ft}
	case "addr":
		b := c.eval(e.Args[0])
		if b.loc == nil {
			c.fail(e, "not addressable")
		}
		return SV{t: x.locTerm(b.loc), typ: types.NewPointer(b.loc.typ)}
	case "index":
		b := c.eval(e.Args[0])
		i := c.eval(e.Args[1])
		if b.typ != nil {
			switch bt := under(b.typ).(type) {
			case *types.Map:
				if i.nil {
					i = SV{t: u.Nil(x.te.sortOf(bt.Key()))}
				}
				v, _ := x.mapGet(c.st, b.typ, b.t, i.t)
				return SV{t: v, typ: bt.Elem()}
			case *types.Slice:
				return SV{t: u.Select(x.elems(c.st, bt.Elem(), b.t), i.t), typ: bt.Elem()}
			}
		}
		if !isArr(b.t.Sort) {
			c.fail(e, "cannot index")
		}
		k, _ := splitArr(b.t.Sort)
		if i.nil {
			i = SV{t: u.Nil(k)}
		}
		if k == SAny && i.t.Sort != SAny && i.typ != nil {
			i = SV{t: x.box(i.typ, i.t)}
		}
		if i.t.Sort != k {
			c.fail(e, "index sort %s, want %s", i.t.Sort, k)
		}
		return SV{t: u.Select(b.t, i.t)}
	case "un":
		if e.Name == "!" {
			return SV{t: u.Not(c.noGoal().evalBool(e.Args[0])), typ: types.Typ[types.Bool]}
		}
		v := c.eval(e.Args[0])
		return SV{t: u.Arith("-", u.Int(0), v.t), typ: v.typ}
	case "bin":
		return c.bin(e)
	case "ite":
		cd := c.noGoal().evalBool(e.Args[0])
		if cd.Op == "true" {
			return c.eval(e.Args[1])
		}
		if cd.Op == "false" {
			return c.eval(e.Args[2])
		}
		a, b := c.eval(e.Args[1]), c.eval(e.Args[2])
		a, b = c.coerce(e, a, b)
		if a.t.Sort != b.t.Sort {
			a.t, b.t = u.ToReal(a.t), u.ToReal(b.t)
		}
		ty := a.typ
		if ty == nil {
			ty = b.typ
		}
		return SV{t: u.Ite(cd, a.t, b.t), typ: ty}
	case "let":
		return c.with(e.Name, c.noGoal().eval(e.Args[0])).eval(e.Args[1])
	case "forall", "exists":
		n := c
		var vars []*Term
		for _, v := range e.Vars {
			s, ty := x.sortByName(v.Type, c.pkg)
			var t *Term
			if e.Kind == "forall" && c.goal {
				t = u.Fresh("sk_"+v.Name, s)
			} else {
				t = u.BoundVar(v.Name, s)
				vars = append(vars, t)
			}
			n = n.with(v.Name, SV{t: t, typ: ty})
		}
		if e.Kind == "exists" {
			n = n.noGoal()
		}
		body := n.evalBool(e.Args[0])
		if len(vars) == 0 {
			return SV{t: body, typ: types.Typ[types.Bool]}
		}
		return SV{t: u.Quant(e.Kind, vars, nil, body), typ: types.Typ[types.Bool]}
	case "call":
		return c.call(e)
	}
	c.fail(e, "cannot evaluate %s", e.Kind)
	return SV{}
}

func (x *Exec) opaque(t types.Type) (types.Type, bool) {
	if _, ok := under(t).(*types.Struct); ok {
		if _, tr := x.te.transparentStruct(t); !tr {
			return t, true
		}
	}
	return t, false
}

func (c *Ctx) field(e *Expr, t types.Type) (int, types.Type) {
	s, ok := c.x.te.transparentStruct(t)
	if !ok {
		c.fail(e, "no fields in %s", typeName(t))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == e.Name {
			return i, s.Field(i).Type()
		}
	}
	c.fail(e, "no field %s in %s", e.Name, typeName(t))
	return 0, nil
}

func (c *Ctx) bin(e *Expr) SV {
	u := c.x.u
	tb := types.Typ[types.Bool]
	switch e.Name {
	case "&&":
		a := c.evalBool(e.Args[0])
		if a.Op == "false" {
			return SV{t: a, typ: tb}
		}
		return SV{t: u.And(a, c.evalBool(e.Args[1])), typ: tb}
	case "||":
		a := c.noGoal().evalBool(e.Args[0])
		return SV{t: u.Or(a, c.evalBool(e.Args[1])), typ: tb}
	case "==>":
		a := c.noGoal().evalBool(e.Args[0])
		if a.Op == "false" {
			return SV{t: u.True(), typ: tb}
		}
		return SV{t: u.Implies(a, c.evalBool(e.Args[1])), typ: tb}
	case "<==>":
		n := c.noGoal()
		return SV{t: u.Eq(n.evalBool(e.Args[0]), n.evalBool(e.Args[1])), typ: tb}
	case "==", "!=":
		n := c.noGoal()
		a, b := n.coerce(e, n.eval(e.Args[0]), n.eval(e.Args[1]))
		if a.t.Sort != b.t.Sort && !(a.t.Sort == SInt && b.t.Sort == SReal) && !(a.t.Sort == SReal && b.t.Sort == SInt) {
			c.fail(e, "comparing %s with %s", a.t.Sort, b.t.Sort)
		}
		r := u.Eq(a.t, b.t)
		if e.Name == "!=" {
			r = u.Not(r)
		}
		return SV{t: r, typ: tb}
	case "in":
		k := c.eval(e.Args[0])
		m := c.eval(e.Args[1])
		if m.typ != nil {
			switch mt := under(m.typ).(type) {
			case *types.Map:
				return SV{t: u.Select(c.x.mapDom(c.st, m.typ, m.t), k.t), typ: tb}
			case *types.Slice:
				return SV{t: u.Select(c.x.memOf(c.st, mt.Elem(), m.t), k.t), typ: tb}
			}
		}
		if isArr(m.t.Sort) {
			return SV{t: u.Select(m.t, k.t), typ: tb}
		}
		c.fail(e, "in: not a map, slice or set")
	}
	a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
	switch e.Name {
	case "<", "<=", ">", ">=":
		return SV{t: u.Cmp(e.Name, a.t, b.t), typ: tb}
	case "/":
		if a.t.Sort == SReal || b.t.Sort == SReal {
			return SV{t: u.Arith("/", u.ToReal(a.t), u.ToReal(b.t)), typ: types.Typ[types.Float64]}
		}
	}
	return SV{t: u.Arith(e.Name, a.t, b.t), typ: a.typ}
}

func (c *Ctx) call(e *Expr) SV {
	x, u := c.x, c.x.u
	arg := func(i int) SV {
		if i >= len(e.Args) {
			c.fail(e, "missing argument")
		}
		return c.eval(e.Args[i])
	}
	tb := types.Typ[types.Bool]
	switch e.Name {
	case "old", "entry":
		n := *c
		if n.now == nil {
			n.now = c.st
		}
		n.st = c.old
		if e.Name == "entry" {
			n.st = c.entry
		}
		if n.st == nil {
			c.fail(e, "no %s state here", e.Name)
		}
		return n.eval(e.Args[0])
	case "len":
		v := arg(0)
		if v.typ != nil {
			switch under(v.typ).(type) {
			case *types.Map:
				return SV{t: x.card(x.mapDom(c.st, v.typ, v.t)), typ: types.Typ[types.Int]}
			}
		}
		if v.t.Sort == SSlice {
			return SV{t: x.slen(v.t), typ: types.Typ[types.Int]}
		}
		return SV{t: u.App("strlen", SInt, v.t), typ: types.Typ[types.Int]}
	case "mem":
		v := arg(0)
		st, ok := under(v.typ).(*types.Slice)
		if !ok {
			c.fail(e, "mem of a non-slice")
		}
		if len(e.Args) > 1 {
			return SV{t: x.mem(x.elems(c.st, st.Elem(), v.t), arg(1).t)}
		}
		return SV{t: x.memOf(c.st, st.Elem(), v.t)}
	case "distinct":
		v := arg(0)
		st, ok := under(v.typ).(*types.Slice)
		if !ok {
			c.fail(e, "distinct of a non-slice")
		}
		return SV{t: x.distinct(x.elems(c.st, st.Elem(), v.t), x.slen(v.t)), typ: tb}
	case "held":
		if c.st.held[c.pkg+"."+exprString(e.Args[0])] != nil {
			return SV{t: u.True(), typ: tb}
		}
		return SV{t: u.False(), typ: tb}
	case "dom":
		v := arg(0)
		return SV{t: x.mapDom(c.st, v.typ, v.t)}
	case "vals":
		v := arg(0)
		return SV{t: x.mapVal(c.st, v.typ, v.t)}
	case "at": // the value stored in a map under a key known to be there
		v := arg(0)
		return SV{t: u.Select(x.mapVal(c.st, v.typ, v.t), arg(1).t), typ: mapType(v.typ).Elem()}
	case "insert":
		return SV{t: u.Store(arg(0).t, arg(1).t, u.True())}
	case "remove":
		return SV{t: u.Store(arg(0).t, arg(1).t, u.False())}
	case "elemref":
		return SV{t: x.sref(arg(0).t)}
	case "fresh":
		v := arg(0)
		r := v.t
		if r.Sort == SSlice {
			r = x.sref(r)
		}
		return SV{t: u.Cmp(">", x.birth(r), c.old.clock), typ: tb}
	case "born":
		v := arg(0)
		return SV{t: u.Cmp("<=", x.birth(v.t), c.st.clock), typ: tb}
	case "hasmethods":
		v := arg(0)
		return SV{t: u.And(u.Not(u.Eq(v.t, u.Nil(SAny))), u.App("implements!"+smtName(e.Args[1].Name), SBool, u.App("dyntype", SInt, v.t))), typ: tb}
	case "is", "unbox", "impl":
		v := arg(0)
		_, ty := x.sortByName(e.Args[1].Name, c.pkg)
		switch e.Name {
		case "is":
			return SV{t: u.And(u.Eq(u.App("dyntype", SInt, v.t), x.te.tag(ty)), u.Not(u.Eq(v.t, u.Nil(SAny)))), typ: tb}
		case "impl":
			return SV{t: x.implements(v.t, ty), typ: tb}
		}
		return SV{t: x.te.Unbox(ty, v.t), typ: ty}
	case "box":
		v := arg(0)
		_, ty := x.sortByName(e.Args[1].Name, c.pkg)
		return SV{t: x.box(ty, v.t)}
	case "pointee": // what a pointer points to
		v := arg(0)
		t := deref(v.typ)
		return SV{t: x.load(c.st, v.t, t), typ: t}
	case "cast": // give a reference a Go type
		v := arg(0)
		_, ty := x.sortByName(e.Args[1].Name, c.pkg)
		return SV{t: v.t, typ: ty}
	case "bytestring":
		return SV{t: u.App("conv!"+smtName(string(SSlice))+"!"+smtName(string(SStr)), SStr, arg(0).t), typ: types.Typ[types.String]}
	case "real":
		return SV{t: u.ToReal(arg(0).t), typ: types.Typ[types.Float64]}
	case "callv":
		f := arg(0)
		var args []*Term
		for i := 1; i < len(e.Args); i++ {
			a := arg(i)
			if a.nil {
				a.t = u.Nil(SAny)
			}
			args = append(args, a.t)
		}
		return x.callPure(c, e, f, args)
	case "erras", "errasval":
		v := arg(0)
		_, ty := x.sortByName(e.Args[1].Name, c.pkg)
		ok := x.errAs(v.t, ty)
		if e.Name == "erras" {
			return SV{t: ok, typ: tb}
		}
		return SV{t: x.errAsVal(v.t, ty), typ: ty}
	case "listens":
		ch := arg(0)
		var eqs []*Term
		for _, l := range x.curListens {
			eqs = append(eqs, u.Eq(l.ch, ch.t))
		}
		return SV{t: u.Or(eqs...), typ: tb}
	case "inpkg":
		return SV{t: u.Bool(x.rootCtx != nil && x.rootCtx.pkg == e.Args[0].Name), typ: tb}
	case "private":
		return SV{t: u.Bool(x.private(c.st, arg(0).t)), typ: tb}
	case "result":
		c.fail(e, "use named results")
	}
	if p := x.p.sp.Preds[e.Name]; p != nil {
		if len(p.Params) != len(e.Args) {
			c.fail(e, "%s: %d arguments, want %d", e.Name, len(e.Args), len(p.Params))
		}
		n := *c
		n.vars = map[string]SV{}
		for k, v := range c.vars {
			if strings.HasPrefix(k, "$") {
				n.vars[k] = v
			}
		}
		cn := c.noGoal()
		for i, a := range e.Args {
			n.vars[p.Params[i]] = cn.eval(a)
		}
		return n.eval(p.Body)
	}
	if f := x.p.sp.Fns[e.Name]; f != nil {
		if len(f.Args) != len(e.Args) {
			c.fail(e, "%s: %d arguments, want %d", e.Name, len(e.Args), len(f.Args))
		}
		var args []*Term
		for i := range e.Args {
			a := arg(i)
			s, _ := x.sortByName(f.Args[i], c.pkg)
			switch {
			case a.nil:
				a.t = u.Nil(s)
			case s == SAny && a.t.Sort != SAny && a.typ != nil:
				a.t = x.box(a.typ, a.t)
			case s == SReal && a.t.Sort == SInt:
				a.t = u.ToReal(a.t)
			}
			if a.t.Sort != s {
				c.fail(e, "%s: argument %d is %s, want %s", e.Name, i, a.t.Sort, s)
			}
			args = append(args, a.t)
		}
		s, ty := x.sortByName(f.Res, c.pkg)
		return SV{t: u.App(f.Name, s, args...), typ: ty}
	}
	c.fail(e, "unknown function %s", e.Name)
	return SV{}
}

func (x *Exec) implements(v *Term, iface types.Type) *Term {
	u := x.u
	n := smtName(typeName(iface))
	if it, ok := under(iface).(*types.Interface); ok && it.NumMethods() == 0 {
		return u.Not(u.Eq(v, u.Nil(SAny)))
	}
	if it, ok := under(iface).(*types.Interface); ok {
		// interfaces with the same methods are the same
		var ms []string
		for i := 0; i < it.NumMethods(); i++ {
			ms = append(ms, it.Method(i).Name())
		}
		n = smtName(strings.Join(ms, "."))
	}
	return u.And(u.Not(u.Eq(v, u.Nil(SAny))), u.App("implements!"+n, SBool, u.App("dyntype", SInt, v)))
}

// callPure evaluates a call of a side-effect free function value.
func (x *Exec) callPure(c *Ctx, e *Expr, f SV, args []*Term) SV {
	u := x.u
	if f.t.Op == "ite" {
		a := x.callPure(c, e, SV{t: f.t.Args[1], typ: f.typ}, args)
		b := x.callPure(c, e, SV{t: f.t.Args[2], typ: f.typ}, args)
		return SV{t: u.Ite(f.t.Args[0], a.t, b.t), typ: a.typ}
	}
	if clo := x.clos[f.t]; clo != nil {
		// run the closure's body
		st := c.st.clone()
		st.loops = map[loopKey]*loopCtx{}
		var res *Term
		type leaf struct {
			pc  []*Term
			val *Term
		}
		var leaves []leaf
		base := len(st.pc)
		vals := make([]Val, len(args))
		for i, a := range args {
			vals[i] = a
		}
		var rt types.Type
		x.trial++
		x.inline(nil, st, clo.fn, vals, clo.binds, nil, func(s2 *State, o Outcome) {
			if o.kind == oReturn && len(o.vals) == 1 {
				leaves = append(leaves, leaf{append([]*Term{}, s2.pc[base:]...), x.term(o.vals[0])})
			}
		})
		x.trial--
		rt = clo.fn.Signature.Results().At(0).Type()
		if len(leaves) == 0 {
			c.fail(e, "function value does not return")
		}
		res = leaves[len(leaves)-1].val
		for i := len(leaves) - 2; i >= 0; i-- {
			res = u.Ite(u.And(leaves[i].pc...), leaves[i].val, res)
		}
		return SV{t: res, typ: rt}
	}
	if f.typ == nil {
		c.fail(e, "callv of a value without a type")
	}
	sig := under(f.typ).(*types.Signature)
	rt := sig.Results().At(0).Type()
	return SV{t: x.pureApp(sig, f.t, args), typ: rt}
}

func (x *Exec) pureApp(sig *types.Signature, f *Term, args []*Term) *Term {
	name := "apply!" + smtName(typeName(sig))
	// parameter names are irrelevant
	name = "apply"
	for i := 0; i < sig.Params().Len(); i++ {
		name += "!" + smtName(string(x.te.sortOf(sig.Params().At(i).Type())))
	}
	rs := x.te.sortOf(sig.Results().At(0).Type())
	name += "~" + smtName(string(rs))
	return x.u.App(name, rs, append([]*Term{f}, args...)...)
}

// ---- clauses

type evClause struct {
	label string
	tags  []string
	t     *Term
	err   string
}

// items evaluates clauses; in goal mode an unevaluable clause is reported, in
// assume mode it is dropped.
func (c *Ctx) items(items []InvItem, goal bool, defTags []string) []evClause {
	var out []evClause
	for _, it := range items {
		if it.Use != "" {
			d := c.x.p.sp.Invs[it.Use]
			if d == nil {
				panic(fmt.Errorf("unknown inv group %s", it.Use))
			}
			n := *c
			n.vars = map[string]SV{}
			ok := true
			func() {
				defer func() {
					if r := recover(); r != nil {
						if se, is := r.(specError); is {
							ok = false
							if goal {
								out = append(out, evClause{label: it.Use, tags: defTags, err: se.msg})
							}
							return
						}
						panic(r)
					}
				}()
				for i, a := range it.Args {
					n.vars[d.Params[i]] = c.eval(a)
				}
			}()
			if !ok {
				continue
			}
			dt := defTags
			if len(it.Tags) > 0 {
				dt = it.Tags
			}
			out = append(out, n.items(d.Clauses, goal, dt)...)
			continue
		}
		tags := it.C.Tags
		if len(tags) == 0 {
			tags = defTags
		}
		if goal && !c.x.wanted(tags) {
			// still evaluated: later obligations may rely on it
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch se := r.(type) {
					case specError:
						if goal {
							out = append(out, evClause{label: it.C.Label, tags: tags, err: se.msg})
						} else {
							c.x.noteSkipped(it.C.Label + ": " + se.msg)
						}
						return
					case unsupported:
						if goal {
							out = append(out, evClause{label: it.C.Label, tags: tags, err: string(se)})
						}
						return
					}
					panic(r)
				}
			}()
			n := *c
			n.goal = goal
			out = append(out, evClause{label: it.C.Label, tags: tags, t: n.evalBool(it.C.E)})
		}()
	}
	return out
}

// assumeItems adds clauses to the path condition.
func (c *Ctx) assumeItems(items []InvItem) {
	for _, ev := range c.items(items, false, nil) {
		c.st.assume(ev.t)
	}
}

// doAssign performs ghost updates.
func (c *Ctx) doAssign(as []Assign) {
	x, u := c.x, c.x.u
	for _, a := range as {
		g := x.p.sp.Ghosts[a.Target]
		if g == nil {
			panic(fmt.Errorf("%s: %s is not a ghost variable", a.Pos, a.Target))
		}
		reg := x.ghostRegion(g)
		cur := x.region(c.st, reg)
		v := c.eval(a.Val)
		var idx []*Term
		arr := cur
		var chain []*Term
		for _, ie := range a.Idx {
			k, _ := splitArr(arr.Sort)
			iv := c.eval(ie)
			if iv.nil {
				iv.t = u.Nil(k)
			}
			if k == SAny && iv.t.Sort != SAny && iv.typ != nil {
				iv.t = x.box(iv.typ, iv.t)
			}
			idx = append(idx, iv.t)
			chain = append(chain, arr)
			arr = u.Select(arr, iv.t)
		}
		if v.nil {
			v.t = u.Nil(arr.Sort)
		}
		if arr.Sort == SAny && v.t.Sort != SAny && v.typ != nil {
			v.t = x.box(v.typ, v.t)
		}
		if arr.Sort == SReal && v.t.Sort == SInt {
			v.t = u.ToReal(v.t)
		}
		if v.t.Sort != arr.Sort {
			panic(fmt.Errorf("%s: assigning %s to %s", a.Pos, v.t.Sort, arr.Sort))
		}
		val := v.t
		for i := len(idx) - 1; i >= 0; i-- {
			val = u.Store(chain[i], idx[i], val)
		}
		c.st.reg[reg] = val
	}
}
