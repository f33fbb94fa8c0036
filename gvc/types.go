package main

import (
	"fmt"
	"go/types"
	"strings"
)

// TypeEnv maps Go types to SMT sorts for one Universe.
type TypeEnv struct {
	u       *Universe
	repo    map[string]bool // transparent package paths
	sorts   map[string]Sort
	structs map[Sort]*types.Struct
	tags    map[string]int64
}

func NewTypeEnv(u *Universe, repo map[string]bool) *TypeEnv {
	return &TypeEnv{u: u, repo: repo, sorts: map[string]Sort{}, structs: map[Sort]*types.Struct{}, tags: map[string]int64{}}
}

func qual(p *types.Package) string { return p.Name() }

func typeName(t types.Type) string { return types.TypeString(t, qual) }

// normType removes aliases.
func normType(t types.Type) types.Type { return types.Unalias(t) }

func under(t types.Type) types.Type { return normType(t).Underlying() }

// transparentStruct reports whether t is a struct whose fields are modelled.
func (te *TypeEnv) transparentStruct(t types.Type) (*types.Struct, bool) {
	t = normType(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := t.(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && !te.repo[p.Path()] {
			return nil, false
		}
	}
	return st, true
}

// structName is the key of a struct type in region names.
func structName(t types.Type) string {
	t = normType(t)
	if n, ok := t.(*types.Named); ok {
		return typeName(n)
	}
	return typeName(t)
}

func (te *TypeEnv) sortOf(t types.Type) Sort {
	t = normType(t)
	if s, ok := te.sorts[typeName(t)]; ok {
		return s
	}
	s := te.sortOf1(t)
	te.sorts[typeName(t)] = s
	return s
}

func (te *TypeEnv) sortOf1(t types.Type) Sort {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return SBool
		case b.Info()&types.IsInteger != 0:
			return SInt
		case b.Info()&types.IsFloat != 0:
			return SReal
		case b.Info()&types.IsString != 0:
			return SStr
		case b.Kind() == types.UnsafePointer:
			return SRef
		case b.Kind() == types.UntypedNil:
			return SAny
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Interface:
		return SAny
	case *types.Signature:
		return SFn
	case *types.Slice:
		return SSlice
	case *types.Array:
		return arrSort(SInt, te.sortOf(b.Elem()))
	case *types.Struct:
		name := smtName(structName(t))
		if st, ok := te.transparentStruct(t); ok {
			s := Sort("S_" + name)
			var sels []string
			var sorts []Sort
			for i := 0; i < st.NumFields(); i++ {
				sels = append(sels, fmt.Sprintf("%s..%s", s, smtName(st.Field(i).Name())))
				sorts = append(sorts, te.sortOf(st.Field(i).Type()))
			}
			te.structs[s] = st
			te.u.addDatatype(s, "mk_"+string(s), sels, sorts)
			return s
		}
		s := Sort("X_" + name)
		te.u.addSort(s)
		return s
	case *types.Tuple:
		return "Tuple"
	}
	panic(unsupported("type " + typeName(t)))
}

func (te *TypeEnv) zero(t types.Type) *Term {
	u := te.u
	s := te.sortOf(t)
	switch s {
	case SBool:
		return u.False()
	case SInt:
		return u.Int(0)
	case SReal:
		return u.ToReal(u.Int(0))
	case SStr:
		return u.Str("")
	case SRef, SAny, SFn, SSlice:
		return u.Nil(s)
	}
	if d := u.dts[s]; d != nil {
		st := te.structs[s]
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = te.zero(st.Field(i).Type())
		}
		return u.Ctor(d, args...)
	}
	if isArr(s) {
		return u.ConstArr(SInt, te.zero(under(t).(*types.Array).Elem()))
	}
	z := u.Const("zero!"+string(s), s)
	z.lit = true
	return z
}

// tag is the dynamic type tag of a concrete type.
func (te *TypeEnv) tag(t types.Type) *Term {
	n := typeName(normType(t))
	if _, ok := te.tags[n]; !ok {
		te.tags[n] = int64(len(te.tags) + 1)
	}
	return te.u.Int(te.tags[n])
}

func (te *TypeEnv) boxName(t types.Type) string { return "box!" + smtName(typeName(normType(t))) }

// Box converts a concrete value into an interface value.
func (te *TypeEnv) Box(t types.Type, v *Term) *Term {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	if v.Op == "unbox!"+smtName(typeName(normType(t))) && false {
		return v.Args[0]
	}
	b := te.u.App(te.boxName(t), SAny, v)
	return b
}

// BoxFacts are the facts known about a box term.
func (te *TypeEnv) BoxFacts(t types.Type, b *Term) []*Term {
	if _, ok := under(t).(*types.Interface); ok {
		return nil
	}
	u := te.u
	return []*Term{
		u.Eq(u.App("dyntype", SInt, b), te.tag(t)),
		u.Eq(te.Unbox(t, b), b.Args[0]),
		u.Not(u.Eq(b, u.Nil(SAny))),
	}
}

func (te *TypeEnv) Unbox(t types.Type, a *Term) *Term {
	return te.u.App("unbox!"+smtName(typeName(normType(t))), te.sortOf(t), a)
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

func shortPos(p string) string {
	if i := strings.LastIndex(p, "/repo/"); i >= 0 {
		return p[i+6:]
	}
	return p
}
