package main

// clause is a universally quantified formula.
type clause struct {
	vars []*Term
	m    *Term
}

func (u *Universe) hasQuant(t *Term) bool {
	if len(t.Vars) > 0 {
		return true
	}
	if t.Sort != SBool || len(t.Args) == 0 {
		return false
	}
	if r, ok := u.quantMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if u.hasQuant(a) {
			r = true
			break
		}
	}
	u.quantMemo[t] = r
	return r
}

// clauses splits a formula into an equivalent conjunction of formulas whose
// universal quantifiers are outermost.
func (u *Universe) clauses(t *Term) []clause {
	if !u.hasQuant(t) {
		return []clause{{nil, t}}
	}
	switch t.Op {
	case "and":
		var out []clause
		for _, a := range t.Args {
			out = append(out, u.clauses(a)...)
		}
		return out
	case "forall":
		if len(t.Trigs) > 0 {
			break
		}
		var out []clause
		for _, c := range u.clauses(t.Args[0]) {
			out = append(out, clause{append(append([]*Term{}, t.Vars...), c.vars...), c.m})
		}
		return out
	case "not":
		a := t.Args[0]
		switch a.Op {
		case "exists":
			return u.clauses(u.Quant("forall", a.Vars, a.Trigs, u.Not(a.Args[0])))
		case "or":
			var out []clause
			for _, b := range a.Args {
				out = append(out, u.clauses(u.Not(b))...)
			}
			return out
		case "=>":
			return append(u.clauses(a.Args[0]), u.clauses(u.Not(a.Args[1]))...)
		}
	case "or", "=>":
		ds := append([]*Term{}, t.Args...)
		if t.Op == "=>" {
			ds[0] = u.Not(ds[0])
		}
		for i, d := range ds {
			if !u.hasQuant(d) {
				continue
			}
			cs := u.clauses(d)
			if len(cs) == 1 && len(cs[0].vars) == 0 && cs[0].m == d {
				continue
			}
			rest := append(append([]*Term{}, ds[:i]...), ds[i+1:]...)
			var out []clause
			for _, c := range cs {
				for _, c2 := range u.clauses(u.Or(append(append([]*Term{}, rest...), c.m)...)) {
					for _, v := range c2.vars {
						for _, w := range c.vars {
							if v == w {
								return []clause{{nil, t}}
							}
						}
					}
					out = append(out, clause{append(append([]*Term{}, c.vars...), c2.vars...), c2.m})
				}
			}
			return out
		}
	case "ite":
		if u.hasQuant(t.Args[1]) || u.hasQuant(t.Args[2]) {
			c := t.Args[0]
			return append(u.clauses(u.Or(u.Not(c), t.Args[1])), u.clauses(u.Or(c, t.Args[2]))...)
		}
	}
	return []clause{{nil, t}}
}

func (u *Universe) prenex(asserts []*Term) []*Term {
	var out []*Term
	for _, t := range asserts {
		if !u.hasQuant(t) {
			out = append(out, t)
			continue
		}
		if r, ok := u.prenexMemo[t]; ok {
			out = append(out, r...)
			continue
		}
		r := []*Term{t}
		if cs := u.clauses(t); len(cs) <= 40 && ownVars(t) {
			r = nil
			for _, c := range cs {
				r = append(r, u.Quant("forall", c.vars, nil, c.m))
			}
		}
		u.prenexMemo[t] = r
		out = append(out, r...)
	}
	return out
}

// ownVars: no two quantifiers in the formula bind the same variable.
func ownVars(t *Term) bool {
	by := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		for _, v := range t.Vars {
			if by[v] != nil {
				return false
			}
			by[v] = t
		}
		for _, a := range t.Args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}
