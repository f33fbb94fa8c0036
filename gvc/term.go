package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT-LIB sort, written out.
type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SReal  Sort = "Real"
	SRef   Sort = "Ref"
	SStr   Sort = "Str"
	SAny   Sort = "Any"
	SFn    Sort = "Fn"
	SSlice Sort = "Slice"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr returns the index and element sorts of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	t := string(s)
	if !strings.HasPrefix(t, "(Array ") {
		panic("not an array sort: " + t)
	}
	t = t[len("(Array ") : len(t)-1]
	depth := 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

func isArr(s Sort) bool { return strings.HasPrefix(string(s), "(Array ") }

// Term is a hash-consed SMT term.
type Term struct {
	Op    string
	Args  []*Term
	Sort  Sort
	Vars  []*Term   // quantifiers
	Trigs [][]*Term // quantifiers
	id    int
	bound bool // mentions a bound variable
	lit   bool // literal constant
	fresh int  // >0: a freshly allocated reference (distinct from all others)
}

// FuncDecl describes an uninterpreted symbol.
type FuncDecl struct {
	Name string
	Args []Sort
	Res  Sort
}

// Universe holds the hash-consing table and the declarations; one per
// verification unit, so that units can run in parallel.
type Universe struct {
	table      map[string]*Term
	next       int
	decls      map[string]FuncDecl
	declOrd    []string
	strs       map[string]*Term
	strOrd     []string
	sorts      map[Sort]bool // uninterpreted sorts
	sortOrd    []Sort
	dts        map[Sort]*Datatype
	dtOrd      []Sort
	ctorOf     map[string]*Datatype
	selOf      map[string]selInfo
	counter    map[string]int
	quantMemo  map[*Term]bool
	prenexMemo map[*Term][]*Term
	trueMul    bool               // products are products, not applications of rmul
	symAx      map[string][]*Term // axioms, by the symbol that makes them relevant
	strLenAx   bool
}

type selInfo struct {
	dt  *Datatype
	idx int
}

// Datatype is a single-constructor SMT datatype (a struct value).
type Datatype struct {
	Sort Sort
	Ctor string
	Sels []string
	Sots []Sort
}

func NewUniverse() *Universe {
	u := &Universe{
		table: map[string]*Term{}, decls: map[string]FuncDecl{}, strs: map[string]*Term{},
		sorts: map[Sort]bool{}, dts: map[Sort]*Datatype{}, ctorOf: map[string]*Datatype{},
		selOf: map[string]selInfo{}, counter: map[string]int{}, symAx: map[string][]*Term{}, quantMemo: map[*Term]bool{}, prenexMemo: map[*Term][]*Term{},
	}
	for _, s := range []Sort{SRef, SStr, SAny, SFn} {
		u.addSort(s)
	}
	u.addDatatype(SSlice, "mkslice", []string{"sref", "slen"}, []Sort{SRef, SInt})
	return u
}

func (u *Universe) addSort(s Sort) {
	if !u.sorts[s] {
		u.sorts[s] = true
		u.sortOrd = append(u.sortOrd, s)
	}
}

func (u *Universe) addDatatype(s Sort, ctor string, sels []string, sorts []Sort) *Datatype {
	if d := u.dts[s]; d != nil {
		return d
	}
	d := &Datatype{s, ctor, sels, sorts}
	u.dts[s] = d
	u.dtOrd = append(u.dtOrd, s)
	u.ctorOf[ctor] = d
	for i, n := range sels {
		u.selOf[n] = selInfo{d, i}
	}
	return d
}

func (u *Universe) mk(op string, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t := u.table[k]; t != nil {
		return t
	}
	u.next++
	t := &Term{Op: op, Args: args, Sort: sort, id: u.next}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	u.table[k] = t
	return t
}

// Const declares (if necessary) and returns a constant.
func (u *Universe) Const(name string, s Sort) *Term {
	u.declare(name, nil, s)
	return u.mk(name, s)
}

// Fresh returns a new constant.
func (u *Universe) Fresh(prefix string, s Sort) *Term {
	prefix = smtName(prefix)
	u.counter[prefix]++
	return u.Const(fmt.Sprintf("%s!%d", prefix, u.counter[prefix]), s)
}

// BoundVar returns a new variable for use under a quantifier.
func (u *Universe) BoundVar(prefix string, s Sort) *Term {
	u.counter["?"+prefix]++
	t := u.mk(fmt.Sprintf("%s?%d", smtName(prefix), u.counter["?"+prefix]), s)
	t.bound = true
	return t
}

func (u *Universe) declare(name string, args []Sort, res Sort) {
	if d, ok := u.decls[name]; ok {
		if d.Res != res || len(d.Args) != len(args) {
			panic(fmt.Sprintf("symbol %s redeclared: %v/%v vs %v/%v", name, d.Args, d.Res, args, res))
		}
		return
	}
	u.decls[name] = FuncDecl{name, args, res}
	u.declOrd = append(u.declOrd, name)
}

// App applies an uninterpreted function.
func (u *Universe) App(name string, res Sort, args ...*Term) *Term {
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.Sort
	}
	u.declare(name, ss, res)
	return u.mk(name, res, args...)
}

func smtName(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '~', r == '@':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("~p")
		case r == '[':
			b.WriteString("~l")
		case r == ']':
			b.WriteString("~r")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// ---- literals

func (u *Universe) True() *Term  { t := u.mk("true", SBool); t.lit = true; return t }
func (u *Universe) False() *Term { t := u.mk("false", SBool); t.lit = true; return t }
func (u *Universe) Bool(b bool) *Term {
	if b {
		return u.True()
	}
	return u.False()
}
func (u *Universe) Int(n int64) *Term { return u.BigInt(big.NewInt(n)) }
func (u *Universe) BigInt(n *big.Int) *Term {
	t := u.mk(n.String(), SInt)
	t.lit = true
	return t
}
func (u *Universe) Real(r *big.Rat) *Term {
	t := u.mk("r:"+r.RatString(), SReal)
	t.lit = true
	return t
}

// Str returns the constant for a string literal; different literals are distinct.
func (u *Universe) Str(s string) *Term {
	if t := u.strs[s]; t != nil {
		return t
	}
	t := u.Const(fmt.Sprintf("str!%d_%s", len(u.strs), smtName(clip(s, 24))), SStr)
	t.lit = true
	u.strs[s] = t
	u.strOrd = append(u.strOrd, s)
	return t
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (u *Universe) Nil(s Sort) *Term {
	switch s {
	case SSlice:
		return u.mk("mkslice", SSlice, u.Nil(SRef), u.Int(0))
	}
	t := u.Const("nil!"+smtName(string(s)), s)
	t.lit = true
	return t
}

// ---- connectives

func (u *Universe) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return u.False()
	case "false":
		return u.True()
	case "not":
		return a.Args[0]
	}
	return u.mk("not", SBool, a)
}

func (u *Universe) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch {
		case t.Op == "true":
			return true
		case t.Op == "false":
			return false
		case t.Op == "and":
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[t] {
			if seen[u.Not(t)] {
				return false
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return u.False()
		}
	}
	switch len(out) {
	case 0:
		return u.True()
	case 1:
		return out[0]
	}
	return u.mk("and", SBool, out...)
}

func (u *Universe) Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = u.Not(a)
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "true" || seen[u.Not(a)] {
			return u.True()
		}
		if a.Op == "false" || seen[a] {
			continue
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return u.False()
	case 1:
		return out[0]
	}
	return u.mk("or", SBool, out...)
}

func (u *Universe) Implies(a, b *Term) *Term {
	switch {
	case a.Op == "true":
		return b
	case a.Op == "false", b.Op == "true", a == b:
		return u.True()
	case b.Op == "false":
		return u.Not(a)
	}
	return u.mk("=>", SBool, a, b)
}

func (u *Universe) Iff(a, b *Term) *Term { return u.Eq(a, b) }

func (u *Universe) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.lit && b.lit {
		return true
	}
	if a.fresh > 0 && (b.lit || b.fresh > 0) || b.fresh > 0 && a.lit {
		return true
	}
	if strings.HasPrefix(a.Op, "box!") {
		if strings.HasPrefix(b.Op, "box!") && a.Op != b.Op || b.lit {
			return true
		}
	} else if strings.HasPrefix(b.Op, "box!") && a.lit {
		return true
	}
	if d := u.ctorOf[a.Op]; d != nil && u.ctorOf[b.Op] == d {
		for i := range a.Args {
			if u.distinct(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	return false
}

func (u *Universe) Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		if a.Sort == SInt && b.Sort == SReal {
			a = u.ToReal(a)
		} else if a.Sort == SReal && b.Sort == SInt {
			b = u.ToReal(b)
		} else {
			panic(fmt.Sprintf("Eq: %s : %s vs %s : %s", u.Show(a), a.Sort, u.Show(b), b.Sort))
		}
	}
	if a == b {
		return u.True()
	}
	if u.distinct(a, b) {
		return u.False()
	}
	if a.Sort == SBool {
		switch {
		case a.Op == "true":
			return b
		case b.Op == "true":
			return a
		case a.Op == "false":
			return u.Not(b)
		case b.Op == "false":
			return u.Not(a)
		}
	}
	if a.Op == "ite" && (u.Eq(a.Args[1], b).lit || u.Eq(a.Args[2], b).lit) {
		return u.Ite(a.Args[0], u.Eq(a.Args[1], b), u.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (u.Eq(b.Args[1], a).lit || u.Eq(b.Args[2], a).lit) {
		return u.Ite(b.Args[0], u.Eq(b.Args[1], a), u.Eq(b.Args[2], a))
	}
	if d := u.ctorOf[a.Op]; d != nil && u.ctorOf[b.Op] == d {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, u.Eq(a.Args[i], b.Args[i]))
		}
		return u.And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return u.mk("=", SBool, a, b)
}

func (u *Universe) Ite(c, a, b *Term) *Term {
	switch {
	case c.Op == "true":
		return a
	case c.Op == "false":
		return b
	case a == b:
		return a
	case c.Op == "not":
		return u.Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		switch {
		case a.Op == "true":
			return u.Or(c, b)
		case a.Op == "false":
			return u.And(u.Not(c), b)
		case b.Op == "true":
			return u.Or(u.Not(c), a)
		case b.Op == "false":
			return u.And(c, a)
		}
	}
	return u.mk("ite", a.Sort, c, a, b)
}

// ---- arrays

func (u *Universe) Select(a, i *Term) *Term {
	_, v := splitArr(a.Sort)
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if u.distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	if a.Op == "ite" {
		return u.Ite(a.Args[0], u.Select(a.Args[1], i), u.Select(a.Args[2], i))
	}
	return u.mk("select", v, a, i)
}

func (u *Universe) Store(a, i, v *Term) *Term {
	k, e := splitArr(a.Sort)
	if i.Sort != k || v.Sort != e {
		panic(fmt.Sprintf("Store: array %s index %s value %s (%s)", a.Sort, i.Sort, v.Sort, u.Show(v)))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return u.mk("store", a.Sort, a, i, v)
}

func (u *Universe) ConstArr(k Sort, v *Term) *Term {
	return u.mk("constarr", arrSort(k, v.Sort), v)
}

// ---- datatypes

func (u *Universe) Ctor(d *Datatype, args ...*Term) *Term {
	for i, a := range args {
		if a.Sort != d.Sots[i] {
			panic(fmt.Sprintf("ctor %s arg %d: %s, want %s", d.Ctor, i, a.Sort, d.Sots[i]))
		}
	}
	// mk(sel0(x), sel1(x), ...) is x
	if len(args) > 0 {
		var x *Term
		ok := true
		for i, a := range args {
			if a.Op != d.Sels[i] || len(a.Args) != 1 || (x != nil && a.Args[0] != x) {
				ok = false
				break
			}
			x = a.Args[0]
		}
		if ok {
			return x
		}
	}
	return u.mk(d.Ctor, d.Sort, args...)
}

func (u *Universe) Sel(d *Datatype, i int, t *Term) *Term {
	if t.Sort != d.Sort {
		panic(fmt.Sprintf("selector %s of %s : %s", d.Sels[i], u.Show(t), t.Sort))
	}
	if t.Op == d.Ctor {
		return t.Args[i]
	}
	if t.Op == "ite" && (t.Args[1].Op == d.Ctor || t.Args[2].Op == d.Ctor || t.Args[1].Op == "ite" || t.Args[2].Op == "ite") {
		return u.Ite(t.Args[0], u.Sel(d, i, t.Args[1]), u.Sel(d, i, t.Args[2]))
	}
	return u.mk(d.Sels[i], d.Sots[i], t)
}

// ---- arithmetic

func litInt(t *Term) (*big.Int, bool) {
	if !t.lit || t.Sort != SInt {
		return nil, false
	}
	n, ok := new(big.Int).SetString(t.Op, 10)
	return n, ok
}

func litReal(t *Term) (*big.Rat, bool) {
	if !t.lit || t.Sort != SReal {
		return nil, false
	}
	return new(big.Rat).SetString(strings.TrimPrefix(t.Op, "r:"))
}

func (u *Universe) ToReal(a *Term) *Term {
	if n, ok := litInt(a); ok {
		return u.Real(new(big.Rat).SetInt(n))
	}
	if a.Sort == SReal {
		return a
	}
	return u.mk("to_real", SReal, a)
}

func (u *Universe) Arith(op string, a, b *Term) *Term {
	if a.Sort != b.Sort {
		a, b = u.ToReal(a), u.ToReal(b)
	}
	if a.Sort == SInt {
		x, ok1 := litInt(a)
		y, ok2 := litInt(b)
		if ok1 && ok2 {
			z := new(big.Int)
			switch op {
			case "+":
				return u.BigInt(z.Add(x, y))
			case "-":
				return u.BigInt(z.Sub(x, y))
			case "*":
				return u.BigInt(z.Mul(x, y))
			case "/":
				if y.Sign() != 0 {
					return u.BigInt(z.Quo(x, y))
				}
			}
		}
		if ok2 && y.Sign() == 0 && (op == "+" || op == "-") {
			return a
		}
		if ok1 && x.Sign() == 0 && op == "+" {
			return b
		}
		// (a + c1) + c2
		if ok2 && (op == "+" || op == "-") && a.Op == "+" {
			if c, ok := litInt(a.Args[1]); ok {
				z := new(big.Int)
				if op == "+" {
					z.Add(c, y)
				} else {
					z.Sub(c, y)
				}
				return u.Arith("+", a.Args[0], u.BigInt(z))
			}
		}
		if ok2 && op == "-" {
			return u.Arith("+", a, u.BigInt(new(big.Int).Neg(y)))
		}
		if op == "-" && a == b {
			return u.Int(0)
		}
		if op == "/" {
			// Go truncates towards zero.
			return u.Ite(u.Cmp(">=", a, u.Int(0)), u.mk("div", SInt, a, b), u.mk("-", SInt, u.Int(0), u.mk("div", SInt, u.mk("-", SInt, u.Int(0), a), b)))
		}
	} else {
		x, ok1 := litReal(a)
		y, ok2 := litReal(b)
		if ok1 && ok2 {
			z := new(big.Rat)
			switch op {
			case "+":
				return u.Real(z.Add(x, y))
			case "-":
				return u.Real(z.Sub(x, y))
			case "*":
				return u.Real(z.Mul(x, y))
			case "/":
				if y.Sign() != 0 {
					return u.Real(z.Quo(x, y))
				}
			}
		}
		if op == "*" && !ok1 && !ok2 && !u.trueMul {
			// products of unknowns are known by the lemmas about them only
			return u.App("rmul", SReal, a, b)
		}
	}
	return u.mk(op, a.Sort, a, b)
}

func (u *Universe) Cmp(op string, a, b *Term) *Term {
	if a.Sort != b.Sort {
		a, b = u.ToReal(a), u.ToReal(b)
	}
	if a.Sort != SInt && a.Sort != SReal {
		return u.App("cmp"+map[string]string{"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op]+"_"+smtName(string(a.Sort)), SBool, a, b)
	}
	c, ok := 0, false
	if x, ok1 := litInt(a); ok1 {
		if y, ok2 := litInt(b); ok2 {
			c, ok = x.Cmp(y), true
		}
	} else if x, ok1 := litReal(a); ok1 {
		if y, ok2 := litReal(b); ok2 {
			c, ok = x.Cmp(y), true
		}
	}
	if ok {
		switch op {
		case "<":
			return u.Bool(c < 0)
		case "<=":
			return u.Bool(c <= 0)
		case ">":
			return u.Bool(c > 0)
		case ">=":
			return u.Bool(c >= 0)
		}
	}
	if a == b {
		return u.Bool(op == "<=" || op == ">=")
	}
	switch op {
	case ">":
		return u.Cmp("<", b, a)
	case ">=":
		return u.Cmp("<=", b, a)
	}
	return u.mk(op, SBool, a, b)
}

// ---- quantifiers

func (u *Universe) Quant(q string, vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body.lit || len(vars) == 0 {
		return body
	}
	u.next++
	t := &Term{Op: q, Args: []*Term{body}, Sort: SBool, Vars: vars, Trigs: trigs, id: u.next}
	// still open if the body mentions other bound variables
	own := map[*Term]bool{}
	for _, v := range vars {
		own[v] = true
	}
	t.bound = mentionsOther(body, own, map[*Term]bool{})
	return t
}

func mentionsOther(t *Term, own map[*Term]bool, seen map[*Term]bool) bool {
	if !t.bound || seen[t] {
		return false
	}
	seen[t] = true
	if len(t.Args) == 0 {
		return !own[t]
	}
	if len(t.Vars) > 0 {
		o2 := map[*Term]bool{}
		for k := range own {
			o2[k] = true
		}
		for _, v := range t.Vars {
			o2[v] = true
		}
		return mentionsOther(t.Args[0], o2, map[*Term]bool{})
	}
	for _, a := range t.Args {
		if mentionsOther(a, own, seen) {
			return true
		}
	}
	return false
}

// Subst replaces terms.
func (u *Universe) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if len(t.Vars) > 0 {
			var trigs [][]*Term
			for _, tr := range t.Trigs {
				var tt []*Term
				for _, x := range tr {
					tt = append(tt, rec(x))
				}
				trigs = append(trigs, tt)
			}
			r = u.Quant(t.Op, t.Vars, trigs, rec(t.Args[0]))
		} else {
			args := make([]*Term, len(t.Args))
			same := true
			for i, a := range t.Args {
				args[i] = rec(a)
				same = same && args[i] == a
			}
			if same {
				r = t
			} else {
				r = u.rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (u *Universe) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return u.Not(args[0])
	case "and":
		return u.And(args...)
	case "or":
		return u.Or(args...)
	case "=>":
		return u.Implies(args[0], args[1])
	case "=":
		return u.Eq(args[0], args[1])
	case "ite":
		return u.Ite(args[0], args[1], args[2])
	case "select":
		return u.Select(args[0], args[1])
	case "store":
		return u.Store(args[0], args[1], args[2])
	case "<", "<=":
		return u.Cmp(t.Op, args[0], args[1])
	case "+", "-", "*":
		return u.Arith(t.Op, args[0], args[1])
	}
	if d := u.ctorOf[t.Op]; d != nil {
		return u.Ctor(d, args...)
	}
	if s, ok := u.selOf[t.Op]; ok {
		return u.Sel(s.dt, s.idx, args[0])
	}
	return u.mk(t.Op, t.Sort, args...)
}

// ---- printing

func opName(t *Term) string {
	if t.lit {
		if strings.HasPrefix(t.Op, "r:") {
			r, _ := new(big.Rat).SetString(t.Op[2:])
			neg := r.Sign() < 0
			r.Abs(r)
			s := fmt.Sprintf("(/ %s.0 %s.0)", r.Num(), r.Denom())
			if neg {
				s = "(- " + s + ")"
			}
			return s
		}
		if t.Sort == SInt && strings.HasPrefix(t.Op, "-") {
			return "(- " + t.Op[1:] + ")"
		}
	}
	return t.Op
}

// Show prints a term (for messages).
func (u *Universe) Show(t *Term) string {
	var b strings.Builder
	u.print(&b, t, nil, 0)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (u *Universe) print(b *strings.Builder, t *Term, names map[*Term]string, depth int) {
	if n, ok := names[t]; ok && depth > 0 {
		b.WriteString(n)
		return
	}
	if names == nil && b.Len() > 6000 {
		b.WriteString("...")
		return
	}
	if len(t.Args) == 0 {
		b.WriteString(opName(t))
		return
	}
	if len(t.Vars) > 0 {
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(b, "(%s %s)", v.Op, v.Sort)
		}
		b.WriteString(") ")
		if len(t.Trigs) > 0 {
			b.WriteString("(! ")
		}
		u.print(b, t.Args[0], names, depth+1)
		if len(t.Trigs) > 0 {
			for _, tr := range t.Trigs {
				b.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						b.WriteByte(' ')
					}
					u.print(b, x, names, depth+1)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if t.Op == "constarr" {
		fmt.Fprintf(b, "((as const %s) ", t.Sort)
	} else {
		b.WriteString("(" + t.Op + " ")
	}
	for i, a := range t.Args {
		if i > 0 {
			b.WriteByte(' ')
		}
		u.print(b, a, names, depth+1)
	}
	b.WriteString(")")
}

// Script renders assertions as an SMT-LIB script body (declarations, shared
// definitions and assertions).
func (u *Universe) Script(asserts []*Term, extra []*Term) string {
	var b strings.Builder
	// collect symbols & reference counts
	refs := map[*Term]int{}
	syms := map[string]bool{}
	strUsed := map[string]bool{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if _, ok := u.decls[t.Op]; ok {
			syms[t.Op] = true
			if strings.HasPrefix(t.Op, "str!") {
				strUsed[t.Op] = true
			}
		}
		for _, tr := range t.Trigs {
			for _, x := range tr {
				visit(x)
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
		order = append(order, t)
	}
	asserts = u.prenex(asserts)
	for _, t := range extra {
		visit(t)
	}
	added := map[string]bool{}
	for i := 0; ; {
		for ; i < len(asserts); i++ {
			visit(asserts[i])
		}
		n := len(asserts)
		for _, name := range u.declOrd {
			if syms[name] && !added[name] {
				added[name] = true
				asserts = append(asserts, u.symAx[name]...)
			}
		}
		if len(asserts) == n {
			break
		}
	}
	for _, s := range u.sortOrd {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, s := range u.dtOrd {
		d := u.dts[s]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", d.Sort, d.Ctor)
		for i := range d.Sels {
			fmt.Fprintf(&b, " (%s %s)", d.Sels[i], d.Sots[i])
		}
		b.WriteString("))))\n")
	}
	for _, n := range u.declOrd {
		if syms[n] {
			d := u.decls[n]
			b.WriteString("(declare-fun " + n + " (")
			for i, a := range d.Args {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(string(a))
			}
			b.WriteString(") " + string(d.Res) + ")\n")
		}
	}
	if len(strUsed) > 1 {
		var ss []string
		for s := range strUsed {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		b.WriteString("(assert (distinct " + strings.Join(ss, " ") + "))\n")
	}
	names := map[*Term]string{}
	for _, t := range order {
		if refs[t] > 1 && len(t.Args) > 0 && !t.bound {
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.Sort)
			u.print(&b, t, names, 0)
			b.WriteString(")\n")
			names[t] = n
		}
	}
	for _, t := range asserts {
		b.WriteString("(assert ")
		u.print(&b, t, names, 1)
		b.WriteString(")\n")
	}
	return b.String()
}

// Axiom records an axiom, asserted in every query that mentions sym.
func (u *Universe) Axiom(sym string, ax *Term) {
	if ax.Op == "true" {
		return
	}
	u.symAx[sym] = append(u.symAx[sym], ax)
}

// Forall is a universally quantified formula.
func (u *Universe) Forall(vars []*Term, trig []*Term, body *Term) *Term {
	var ts [][]*Term
	if len(trig) > 0 {
		ts = [][]*Term{trig}
	}
	return u.Quant("forall", vars, ts, body)
}
