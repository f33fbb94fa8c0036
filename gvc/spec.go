package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- contract language: syntax trees

// Expr is a specification expression.
type Expr struct {
	Kind string // num str bool nil id field index call un bin forall exists ite let addr
	Name string
	Args []*Expr
	Vars []VarDecl
	Pos  string
}

type VarDecl struct {
	Name string
	Type string
}

// Clause is a labelled, tagged formula.
type Clause struct {
	Tags  []string
	Label string
	E     *Expr
	Pos   string
}

// Assign is a ghost update: target[idx...] = value.
type Assign struct {
	Target string
	Idx    []*Expr
	Val    *Expr
	Pos    string
}

type GhostDecl struct {
	Name     string
	Type     string
	Shared   bool // environment may change it
	Monotone bool // boolean (map), only ever raised
	Event    bool // describes the current event: the same under old()
	Local    bool // belongs to the goroutine under verification
	Own      bool // a goroutine started here has its own
	Init     *Expr
}

type FnDecl struct {
	Name string
	Args []string
	Res  string
}

type PredDecl struct {
	Name   string
	Params []string
	Body   *Expr
}

type InvDecl struct {
	Name    string
	Params  []string
	Clauses []InvItem
}

// InvItem is a clause or a use of an inv group.
type InvItem struct {
	C    *Clause
	Use  string
	Args []*Expr
	Tags []string
}

type ChanSpec struct {
	Key        string // Type.field
	Self, Msg  string
	SendReq    []InvItem
	SendAssume []InvItem
	SendDo     []Assign
	SendEns    []InvItem
	RecvAssume []InvItem
	RecvReq    []InvItem
	RecvDo     []Assign
	PollDo     []Assign  // instead of RecvDo in a select with a default
	RecvPost   []InvItem // assumed after do
	CloseReq   []InvItem
	CloseDo    []Assign
	Prompt     bool
	ClosedOnly bool      // receiving means closed
	Idle       []InvItem // assumed when a poll finds nothing
}

// FuncSpec is the contract of a function, extern, interface method or callback.
type FuncSpec struct {
	Key       string
	Kind      string // func extern iface callback
	Params    []string
	Results   []string
	Role      string
	Requires  []InvItem
	Ensures   []InvItem
	OnPanic   []InvItem
	Modifies  []string
	Do        []Assign
	Is        *Expr
	Pure      string
	Event     []InvItem // event loop invariants
	Step      []InvItem
	Cands     []*Cand
	SpawnReq  []InvItem
	SpawnDo   []Assign
	Serves    []ServeItem
	Escapes   []ServeItem
	EventOpt  []InvItem // invariants it may do without
	OptLast   bool      // first without them
	Waits     []InvItem // what holds whenever the function waits
	Helper    bool
	MayPanic  bool
	MayExit   bool
	Blocks    bool
	Prompt    bool // blocking here needs no way out
	Holds     []string
	Safety    []string // tags of implicit safety obligations
	Havoc     bool
	Root      bool
	Pos       string
	Spawned   bool
	TombExit  []InvItem
	ChildExit []InvItem // when a goroutine started by the function ends
	PanicDo   []Assign
	AtReturn  []Assign // ghost code where the function returns
	Thens     []*Then
}

// Then says what a function value that the function returns does when called.
type Then struct {
	F       *Expr
	Params  []string
	Results []string
	Reqs    []InvItem
	Ens     []InvItem
}

// ServeItem names channels every blocking point must (also) listen on.
type ServeItem struct {
	Tags []string
	E    []*Expr
	When *Expr
	Pos  string
}

// Cand is a candidate loop invariant; Locals are pattern variables.
type Cand struct {
	Tags   []string // only tried for these properties
	Locals []VarDecl
	E      *Expr
	Pos    string
}

type ChildFact struct {
	Name  string // ghost map any->bool raised for the worker
	Var   string
	Chan  string // also about each local channel
	Exit  *Expr
	Block *Expr
	Pos   string
}

type Guard struct {
	Fields []string
	Lock   string
	Owner  string
	Notify string
	Tags   []string
}

type Confine struct {
	Fields []string
	Owner  string
	Tags   []string
	Dead   *Expr
	Self   string
}

type Monitor struct {
	Lock   string
	Self   string
	Inv    []InvItem
	Assume []*Expr
}

// TypeInv holds for every value of a type that was put into an interface.
type TypeInv struct {
	Type  string
	Self  string
	Items []InvItem
	Tags  []string
}

// Once is a flag that is only ever raised by compare-and-swap.
type Once struct {
	Ghost string
	Tags  []string
}

type ImmUnless struct {
	Self string
	E    *Expr
}

// CondWait says when a goroutine may wait for a condition.
type CondWait struct {
	Self string
	Req  []InvItem
}

// Lemma is a fact about products of reals: proved with their meaning, used as
// a fact about the function that stands for them.
type Lemma struct {
	Name string
	Pkg  string
	E    *Expr
}

// Specs is everything read from the contract files.
type Specs struct {
	Ghosts    map[string]*GhostDecl
	GhostOrd  []string
	Fns       map[string]*FnDecl
	Axioms    []*Expr
	AxiomPkg  []string
	Lemmas    []*Lemma
	Preds     map[string]*PredDecl
	Invs      map[string]*InvDecl
	Chans     map[string]*ChanSpec
	Funcs     map[string]*FuncSpec // keyed kind+":"+key
	FuncOrd   []string
	Guards    []*Guard
	Confines  []*Confine
	Immut     map[string][]string // field -> tags
	Monitors  map[string]*Monitor
	Conds     map[string]string
	CondWaits map[string]*CondWait
	Facts     map[string][]*ChildFact // by package
	PkgTags   map[string][]string
	Pools     map[string][]*Cand // by package
	Assume    []string
	WGs       map[string][]string
	Races     map[string][]string // package -> tags
	TypeInvs  map[string]*TypeInv // of values put into interfaces
	Onces     map[string]*Once
	ImmUnless map[string]*ImmUnless
}

func NewSpecs() *Specs {
	return &Specs{Ghosts: map[string]*GhostDecl{}, Fns: map[string]*FnDecl{}, Preds: map[string]*PredDecl{},
		Invs: map[string]*InvDecl{}, Chans: map[string]*ChanSpec{}, Funcs: map[string]*FuncSpec{},
		Immut: map[string][]string{}, Monitors: map[string]*Monitor{}, Conds: map[string]string{}, CondWaits: map[string]*CondWait{},
		Facts: map[string][]*ChildFact{}, PkgTags: map[string][]string{}, Pools: map[string][]*Cand{}, WGs: map[string][]string{}, Races: map[string][]string{}, TypeInvs: map[string]*TypeInv{}, Onces: map[string]*Once{}, ImmUnless: map[string]*ImmUnless{}}
}

// ---- lexer

type stok struct {
	kind string // id num str op eof
	text string
	line int
	nl   bool // first stok on its line, column 0
}

type parser struct {
	file string
	toks []stok
	i    int
	sp   *Specs
	pkg  string
}

func lex(file, src string) []stok {
	var out []stok
	line := 1
	rs := []rune(src)
	col0 := true
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
			col0 = true
			continue
		case unicode.IsSpace(c):
			i++
			col0 = false
			continue
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
			continue
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, stok{"id", string(rs[i:j]), line, col0})
			i = j
		case unicode.IsDigit(c):
			j := i + 1
			for j < len(rs) && (unicode.IsDigit(rs[j]) || (rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1]))) {
				j++
			}
			out = append(out, stok{"num", string(rs[i:j]), line, col0})
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			out = append(out, stok{"str", string(rs[i+1 : j]), line, col0})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", ":="}
			op := string(c)
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), o) {
					op = o
					break
				}
			}
			out = append(out, stok{"op", op, line, col0})
			i += len([]rune(op))
		}
		col0 = false
	}
	out = append(out, stok{"eof", "", line, true})
	return out
}

func (p *parser) peek() stok { return p.toks[p.i] }
func (p *parser) next() stok { t := p.toks[p.i]; p.i++; return t }
func (p *parser) pos() string {
	return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line)
}
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Errorf("%s: %s (at %q)", p.pos(), fmt.Sprintf(f, a...), p.peek().text))
}
func (p *parser) is(text string) bool {
	t := p.peek()
	return t.text == text && t.kind != "str"
}
func (p *parser) accept(text string) bool {
	if p.is(text) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(text string) {
	if !p.accept(text) {
		p.fail("expected %q", text)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.kind != "id" {
		p.i--
		p.fail("expected identifier")
	}
	return t.text
}

// typ reads a type: [K]V, *T, pkg.T, T, func types quoted as strings.
func (p *parser) typ() string {
	t := p.peek()
	switch {
	case t.kind == "str":
		p.next()
		return t.text
	case t.text == "[":
		p.next()
		k := p.typ()
		p.expect("]")
		return "[" + k + "]" + p.typ()
	case t.text == "*":
		p.next()
		return "*" + p.typ()
	}
	n := p.ident()
	for p.accept(".") {
		n += "." + p.ident()
	}
	return n
}

func (p *parser) dotted() string {
	n := p.ident()
	for p.accept(".") {
		n += "." + p.ident()
	}
	return n
}

func (p *parser) names() []string {
	var out []string
	p.expect("(")
	for !p.accept(")") {
		out = append(out, p.ident())
		p.accept(",")
	}
	return out
}

func (p *parser) tags() []string {
	var out []string
	if p.accept("[") {
		for !p.accept("]") {
			out = append(out, p.ident())
			p.accept(",")
		}
	}
	return out
}

// item reads "[tags] use G(args)", or "[tags] label: expr".
func (p *parser) item() InvItem {
	pos := p.pos()
	tags := p.tags()
	if p.accept("use") {
		n := p.ident()
		var args []*Expr
		p.expect("(")
		for !p.accept(")") {
			args = append(args, p.expr())
			p.accept(",")
		}
		return InvItem{Use: n, Args: args, Tags: tags}
	}
	label := ""
	if p.peek().kind == "id" && p.toks[p.i+1].text == ":" {
		label = p.ident()
		p.expect(":")
	}
	e := p.expr()
	if label == "" {
		label = "clause@" + pos
	}
	return InvItem{C: &Clause{Tags: tags, Label: label, E: e, Pos: pos}}
}

func (p *parser) assigns() []Assign {
	var out []Assign
	for {
		pos := p.pos()
		n := p.ident()
		var idx []*Expr
		for p.accept("[") {
			idx = append(idx, p.expr())
			p.expect("]")
		}
		p.expect(":=")
		out = append(out, Assign{n, idx, p.expr(), pos})
		if !p.accept(";") {
			return out
		}
	}
}

// ---- expressions

func (p *parser) mk(kind, name string, args ...*Expr) *Expr {
	return &Expr{Kind: kind, Name: name, Args: args, Pos: p.pos()}
}

func (p *parser) expr() *Expr { return p.iff() }

func (p *parser) iff() *Expr {
	l := p.implies()
	for p.accept("<==>") {
		l = p.mk("bin", "<==>", l, p.implies())
	}
	return l
}

func (p *parser) implies() *Expr {
	l := p.or()
	if p.accept("==>") {
		return p.mk("bin", "==>", l, p.implies())
	}
	return l
}

func (p *parser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		l = p.mk("bin", "||", l, p.and())
	}
	return l
}

func (p *parser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		l = p.mk("bin", "&&", l, p.cmp())
	}
	return l
}

func (p *parser) cmp() *Expr {
	l := p.add()
	for {
		switch t := p.peek(); {
		case t.kind == "op" && (t.text == "==" || t.text == "!=" || t.text == "<" || t.text == "<=" || t.text == ">" || t.text == ">="):
			p.next()
			l = p.mk("bin", t.text, l, p.add())
		case t.kind == "id" && t.text == "in":
			p.next()
			l = p.mk("bin", "in", l, p.add())
		default:
			return l
		}
	}
}

func (p *parser) add() *Expr {
	l := p.mul()
	for p.peek().kind == "op" && (p.is("+") || p.is("-")) {
		op := p.next().text
		l = p.mk("bin", op, l, p.mul())
	}
	return l
}

func (p *parser) mul() *Expr {
	l := p.unary()
	for p.peek().kind == "op" && (p.is("*") || p.is("/")) {
		op := p.next().text
		l = p.mk("bin", op, l, p.unary())
	}
	return l
}

func (p *parser) unary() *Expr {
	switch {
	case p.accept("!"):
		return p.mk("un", "!", p.unary())
	case p.is("-"):
		p.next()
		return p.mk("un", "-", p.unary())
	case p.accept("&"):
		return p.mk("addr", "", p.postfix())
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.is("."):
			p.next()
			e = p.mk("field", p.ident(), e)
		case p.is("[") && !p.peek().nl && p.toks[p.i-1].line == p.peek().line:
			p.next()
			ix := p.expr()
			p.expect("]")
			e = p.mk("index", "", e, ix)
		case p.is("(") && e.Kind == "id":
			p.next()
			var args []*Expr
			for !p.accept(")") {
				args = append(args, p.expr())
				p.accept(",")
			}
			e = &Expr{Kind: "call", Name: e.Name, Args: args, Pos: e.Pos}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.peek()
	switch {
	case t.kind == "num":
		p.next()
		return p.mk("num", t.text)
	case t.kind == "str":
		p.next()
		return p.mk("str", t.text)
	case p.accept("("):
		e := p.expr()
		p.expect(")")
		return e
	case t.kind == "id" && (t.text == "forall" || t.text == "exists"):
		p.next()
		e := p.mk(t.text, "")
		for {
			n := p.ident()
			e.Vars = append(e.Vars, VarDecl{n, p.typ()})
			if !p.accept(",") {
				break
			}
		}
		p.expect(":")
		e.Args = []*Expr{p.expr()}
		return e
	case t.kind == "id" && t.text == "let":
		p.next()
		n := p.ident()
		p.expect(":=")
		v := p.expr()
		p.expect("then")
		return p.mk("let", n, v, p.expr())
	case t.kind == "id" && t.text == "if":
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		return p.mk("ite", "", c, a, p.expr())
	case t.kind == "id" && (t.text == "true" || t.text == "false"):
		p.next()
		return p.mk("bool", t.text)
	case t.kind == "id" && t.text == "nil":
		p.next()
		return p.mk("nil", "")
	case t.kind == "id":
		p.next()
		return p.mk("id", t.text)
	}
	p.fail("expected expression")
	return nil
}

// ---- declarations

func (p *parser) file_() {
	sp := p.sp
	for p.peek().kind != "eof" {
		pos := p.pos()
		kw := p.ident()
		switch kw {
		case "package":
			p.pkg = p.ident()
			if p.is("[") {
				sp.PkgTags[p.pkg] = p.tags()
			}
		case "ghost":
			g := &GhostDecl{Name: p.ident(), Type: p.typ()}
		attrs:
			for {
				switch {
				case p.accept("shared"):
					g.Shared = true
				case p.accept("monotone"):
					g.Monotone = true
				case p.accept("local"):
					g.Local = true
				case p.accept("own"):
					g.Local, g.Own = true, true
				case p.accept("event"):
					g.Local, g.Event = true, true
				case p.accept("init"):
					g.Init = p.expr()
				default:
					break attrs
				}
			}
			if sp.Ghosts[g.Name] != nil {
				p.fail("ghost %s is declared twice", g.Name)
			}
			sp.Ghosts[g.Name] = g
			sp.GhostOrd = append(sp.GhostOrd, g.Name)
		case "fn":
			f := &FnDecl{Name: p.ident()}
			p.expect("(")
			for !p.accept(")") {
				f.Args = append(f.Args, p.typ())
				p.accept(",")
			}
			f.Res = p.typ()
			sp.Fns[f.Name] = f
		case "axiom":
			sp.Axioms = append(sp.Axioms, p.expr())
			sp.AxiomPkg = append(sp.AxiomPkg, p.pkg)
		case "lemma":
			l := &Lemma{Name: p.ident(), Pkg: p.pkg}
			p.expect(":")
			l.E = p.expr()
			sp.Lemmas = append(sp.Lemmas, l)
		case "assumption":
			t := p.next()
			sp.Assume = append(sp.Assume, p.pkg+": "+t.text)
		case "pred":
			d := &PredDecl{Name: p.ident(), Params: p.names()}
			p.expect("{")
			d.Body = p.expr()
			p.expect("}")
			sp.Preds[d.Name] = d
		case "inv":
			d := &InvDecl{Name: p.ident(), Params: p.names()}
			p.expect("{")
			for !p.accept("}") {
				d.Clauses = append(d.Clauses, p.item())
				p.accept(";")
			}
			sp.Invs[d.Name] = d
		case "pool":
			p.expect("{")
			for !p.accept("}") {
				sp.Pools[p.pkg] = append(sp.Pools[p.pkg], p.cand())
				p.accept(";")
			}
		case "guarded":
			g := &Guard{Tags: p.tags()}
			for {
				g.Fields = append(g.Fields, p.pkg+"."+p.dotted())
				if !p.accept(",") {
					break
				}
			}
			p.expect("by")
			g.Lock = p.pkg + "." + p.dotted()
			p.expect("owner")
			g.Owner = p.ident()
			if p.accept("notify") {
				g.Notify = p.pkg + "." + p.dotted()
			}
			sp.Guards = append(sp.Guards, g)
		case "confined":
			c := &Confine{Tags: p.tags()}
			for {
				c.Fields = append(c.Fields, p.pkg+"."+p.dotted())
				if !p.accept(",") {
					break
				}
			}
			p.expect("to")
			c.Owner = p.ident()
			if p.accept("unless") {
				c.Self = p.ident()
				p.expect(":")
				c.Dead = p.expr()
			}
			sp.Confines = append(sp.Confines, c)
		case "immutable":
			tags := p.tags()
			var fs []string
			for {
				f := p.pkg + "." + p.dotted()
				sp.Immut[f] = tags
				fs = append(fs, f)
				if !p.accept(",") {
					break
				}
			}
			if p.accept("unless") {
				u := &ImmUnless{Self: p.ident()}
				p.expect(":")
				u.E = p.expr()
				for _, f := range fs {
					sp.ImmUnless[f] = u
				}
			}
		case "once":
			o := &Once{Tags: p.tags()}
			f := p.pkg + "." + p.dotted()
			o.Ghost = p.ident()
			sp.Onces[f] = o
		case "typeinv":
			ti := &TypeInv{Type: p.pkg + "." + p.ident()}
			ti.Self = p.names()[0]
			p.expect("{")
			for !p.accept("}") {
				ti.Items = append(ti.Items, p.item())
				p.accept(";")
			}
			sp.TypeInvs[ti.Type] = ti
		case "race":
			sp.Races[p.pkg] = p.tags()
		case "waitgroup":
			tags := p.tags()
			sp.WGs[p.pkg+"."+p.dotted()] = tags
		case "monitor":
			m := &Monitor{Lock: p.pkg + "." + p.dotted()}
			m.Self = p.names()[0]
			p.expect("{")
			for !p.accept("}") {
				switch {
				case p.accept("assume"):
					m.Assume = append(m.Assume, p.expr())
				default:
					p.expect("inv")
					m.Inv = append(m.Inv, p.item())
				}
			}
			sp.Monitors[m.Lock] = m
		case "cond":
			c := p.pkg + "." + p.dotted()
			p.expect("lock")
			sp.Conds[c] = p.pkg + "." + p.dotted()
			if p.accept("wait") {
				w := &CondWait{Self: p.names()[0]}
				p.expect("requires")
				w.Req = append(w.Req, p.item())
				sp.CondWaits[c] = w
			}
		case "childfact":
			f := &ChildFact{Name: p.ident(), Pos: pos}
			ns := p.names()
			if len(ns) > 0 {
				f.Var = ns[0]
			}
			if len(ns) > 1 {
				f.Chan = ns[1]
			}
			p.expect("{")
			for !p.accept("}") {
				switch {
				case p.accept("exit"):
					f.Exit = p.expr()
				default:
					p.expect("block")
					f.Block = p.expr()
				}
			}
			sp.Facts[p.pkg] = append(sp.Facts[p.pkg], f)
		case "chan":
			nm := p.dotted()
			c := &ChanSpec{Key: p.pkg + "." + nm}
			if !strings.Contains(nm, ".") {
				c.Key = "fn:" + nm
			}
			ns := p.names()
			c.Self, c.Msg = ns[0], ns[1]
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "send":
					switch {
					case p.accept("requires"):
						c.SendReq = append(c.SendReq, p.item())
					case p.accept("assume"):
						c.SendAssume = append(c.SendAssume, p.item())
					default:
						p.expect("do")
						c.SendDo = append(c.SendDo, p.assigns()...)
					}
				case "recv":
					switch {
					case p.accept("assume"):
						c.RecvAssume = append(c.RecvAssume, p.item())
					case p.accept("requires"):
						c.RecvReq = append(c.RecvReq, p.item())
					case p.accept("post"):
						c.RecvPost = append(c.RecvPost, p.item())
					default:
						p.expect("do")
						c.RecvDo = append(c.RecvDo, p.assigns()...)
					}
				case "close":
					switch {
					case p.accept("requires"):
						c.CloseReq = append(c.CloseReq, p.item())
					default:
						p.expect("do")
						c.CloseDo = append(c.CloseDo, p.assigns()...)
					}
				case "poll":
					p.expect("do")
					c.PollDo = append(c.PollDo, p.assigns()...)
				case "idle":
					p.expect("assume")
					c.Idle = append(c.Idle, p.item())
				case "prompt":
					c.Prompt = true
				case "closedonly":
					c.ClosedOnly = true
				default:
					p.fail("bad channel clause %q", k)
				}
			}
			sp.Chans[c.Key] = c
		case "func", "extern", "iface", "callback":
			f := &FuncSpec{Kind: kw, Pos: pos}
			if kw == "callback" {
				f.Key = p.typ()
			} else {
				f.Key = p.dotted()
				if kw == "func" {
					f.Key = p.pkg + "." + f.Key
				}
			}
			f.Params = p.names()
			if p.accept("returns") {
				f.Results = p.names()
			}
			if p.accept("{") {
				p.body(f)
			}
			key := f.Kind + ":" + f.Key
			if kw == "extern" {
				key = "extern:" + f.Key
			}
			if sp.Funcs[key] != nil {
				p.fail("duplicate contract %s", key)
			}
			sp.Funcs[key] = f
			sp.FuncOrd = append(sp.FuncOrd, key)
		default:
			p.i--
			p.fail("unknown declaration %q", kw)
		}
	}
}

func (p *parser) cand() *Cand {
	c := &Cand{Pos: p.pos(), Tags: p.tags()}
	for p.accept("local") {
		n := p.ident()
		c.Locals = append(c.Locals, VarDecl{n, p.typ()})
		p.expect(":")
	}
	c.E = p.expr()
	return c
}

func (p *parser) body(f *FuncSpec) {
	for !p.accept("}") {
		switch k := p.ident(); k {
		case "role":
			f.Role = p.ident()
		case "root":
			f.Root = true
		case "helper":
			f.Helper = true
		case "requires":
			f.Requires = append(f.Requires, p.item())
		case "ensures":
			f.Ensures = append(f.Ensures, p.item())
		case "tombexit":
			f.TombExit = append(f.TombExit, p.item())
		case "childexit":
			f.ChildExit = append(f.ChildExit, p.item())
		case "panicdo":
			f.PanicDo = append(f.PanicDo, p.assigns()...)
		case "onpanic":
			f.OnPanic = append(f.OnPanic, p.item())
		case "eventloop":
			if p.accept("fallback") {
				f.OptLast = true
				f.EventOpt = append(f.EventOpt, p.item())
				break
			}
			if p.accept("optional") {
				f.EventOpt = append(f.EventOpt, p.item())
				break
			}
			f.Event = append(f.Event, p.item())
		case "step":
			f.Step = append(f.Step, p.item())
		case "loop":
			f.Cands = append(f.Cands, p.cand())
		case "modifies":
			for {
				m := ""
				if (p.is("map") || p.is("A")) && p.toks[p.i+1].text == ":" {
					m = p.ident() + ":"
					p.expect(":")
				}
				f.Modifies = append(f.Modifies, m+p.typ())
				if !p.accept(",") {
					break
				}
			}
		case "do":
			f.Do = append(f.Do, p.assigns()...)
		case "atreturn":
			f.AtReturn = append(f.AtReturn, p.assigns()...)
		case "is":
			f.Is = p.expr()
		case "pure":
			f.Pure = p.ident()
		case "spawn":
			f.Spawned = true
			switch {
			case p.accept("requires"):
				f.SpawnReq = append(f.SpawnReq, p.item())
			default:
				p.expect("do")
				f.SpawnDo = append(f.SpawnDo, p.assigns()...)
			}
		case "serves", "escapes":
			s := ServeItem{Pos: p.pos(), Tags: p.tags()}
			for {
				s.E = append(s.E, p.expr())
				if !p.accept(",") {
					break
				}
			}
			if p.accept("when") {
				s.When = p.expr()
			}
			if k == "serves" {
				f.Serves = append(f.Serves, s)
			} else {
				f.Escapes = append(f.Escapes, s)
			}
		case "waits":
			p.expect("requires")
			f.Waits = append(f.Waits, p.item())
		case "then":
			t := &Then{F: p.postfix()}
			t.Params = p.names()
			if p.accept("returns") {
				t.Results = p.names()
			}
			p.expect("{")
			for !p.accept("}") {
				switch {
				case p.accept("requires"):
					t.Reqs = append(t.Reqs, p.item())
				default:
					p.expect("ensures")
					t.Ens = append(t.Ens, p.item())
				}
				p.accept(";")
			}
			f.Thens = append(f.Thens, t)
		case "maypanic":
			f.MayPanic = true
		case "mayexit":
			f.MayExit = true
		case "blocks":
			f.Blocks = true
		case "prompt":
			f.Prompt = true
		case "holds":
			f.Holds = append(f.Holds, p.pkg+"."+p.dotted())
		case "safety":
			f.Safety = p.tags()
		default:
			p.i--
			p.fail("unknown clause %q", k)
		}
		p.accept(";")
	}
}

// LoadSpecs reads every .gvc file of a directory.
func LoadSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	sp = NewSpecs()
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	if len(files) == 0 {
		return nil, fmt.Errorf("no contract files in %s", dir)
	}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p := &parser{file: f, toks: lex(f, string(src)), sp: sp}
		p.file_()
	}
	return sp, nil
}
