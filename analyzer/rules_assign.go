package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Definite assignment of the fields of one object: which fields are set on every successful path of a function (and
// of the functions it hands the object to), and which are read before that.
type assignAn struct {
	p    *Prog
	typ  *types.Named
	memo map[string]*assignSum
	busy map[*ssa.Function]bool
	dyn  bool // the object escapes into a function value: calls cannot be told apart
	read func(f *ssa.Function, in ssa.Instruction, field string)
}

type assignSum struct{ must fieldSet }

type fieldSet map[string]bool

func (s fieldSet) key() string {
	var k []string
	for f := range s {
		k = append(k, f)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}
func (s fieldSet) clone() fieldSet {
	o := fieldSet{}
	for f := range s {
		o[f] = true
	}
	return o
}
func meet(a, b fieldSet) fieldSet {
	if a == nil {
		return b.clone()
	}
	o := fieldSet{}
	for f := range a {
		if b[f] {
			o[f] = true
		}
	}
	return o
}

// run: the fields assigned on every successful return of f, given those assigned before; pi is the parameter that
// holds the object.
func (a *assignAn) run(f *ssa.Function, pi int, in fieldSet) fieldSet {
	key := f.String() + "#" + in.key()
	if a.read != nil {
		key += "#read"
	}
	if s, ok := a.memo[key]; ok {
		return s.must
	}
	if a.busy[f] || len(f.Blocks) == 0 {
		return in
	}
	a.busy[f] = true
	defer func() { a.busy[f] = false }()
	obj := f.Params[pi]
	out := make([]fieldSet, len(f.Blocks))
	apply := func(b *ssa.BasicBlock, s fieldSet, report bool) fieldSet {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.X == obj && report {
					if n := a.field(fa); !s[n] && a.read != nil {
						a.read(f, in, n)
					}
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == obj {
					s[a.field(fa)] = true
				}
				if x.Val == ssa.Value(obj) {
					a.dyn = true
				}
			case *ssa.MakeClosure:
				for _, v := range x.Bindings {
					if v == ssa.Value(obj) {
						a.dyn = true
					}
				}
			case *ssa.MakeInterface:
				if x.X == ssa.Value(obj) {
					a.dyn = true
				}
			case ssa.CallInstruction:
				cc := x.Common()
				for i, v := range cc.Args {
					if v != ssa.Value(obj) {
						continue
					}
					if g := cc.StaticCallee(); g != nil && len(g.Blocks) > 0 && i < len(g.Params) {
						if _, isgo := x.(*ssa.Go); isgo {
							a.dyn = true
							continue
						}
						old := a.read
						if !report {
							a.read = nil
						}
						for n := range a.run(g, i, s) {
							s[n] = true
						}
						a.read = old
					} else {
						a.dyn = true
					}
				}
			}
		}
		return s
	}
	entry := func(b *ssa.BasicBlock) fieldSet {
		if b.Index == 0 {
			return in.clone()
		}
		var s fieldSet
		for _, p := range b.Preds {
			if out[p.Index] != nil {
				s = meet(s, out[p.Index])
			}
		}
		return s
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			s := entry(b)
			if s == nil {
				continue
			}
			s = apply(b, s, false)
			if out[b.Index] == nil || out[b.Index].key() != s.key() {
				out[b.Index] = s
				changed = true
			}
		}
	}
	ei := errIndex(f.Signature)
	var must fieldSet
	for _, b := range f.Blocks {
		if out[b.Index] == nil {
			continue
		}
		apply(b, entry(b), true)
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if ei < 0 {
			must = meet(must, out[b.Index])
			continue
		}
		v := ret.Results[ei]
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
			for i, e := range ph.Edges {
				if out[b.Preds[i].Index] != nil && !a.failed(e, b.Preds[i]) {
					s := out[b.Preds[i].Index].clone()
					must = meet(must, apply(b, s, false))
				}
			}
			continue
		}
		if !a.failed(v, b) {
			must = meet(must, out[b.Index])
		}
	}
	if must == nil {
		must = in
	}
	a.memo[key] = &assignSum{must}
	return must
}

func (a *assignAn) field(fa *ssa.FieldAddr) string {
	return structOf(fa.X.Type().Underlying().(*types.Pointer).Elem()).Field(fa.Field).Name()
}

// failed: the error is not nil at the end of block b
func (a *assignAn) failed(v ssa.Value, b *ssa.BasicBlock) bool {
	if definitelyNonNil(v) {
		return true
	}
	if isNilConst(v) {
		return false
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if _, g := u.X.(*ssa.Global); g {
			return true // a package's error value
		}
	}
	vals := map[ssa.Value]bool{v: true}
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			switch k := errBranch(i.Cond, vals); {
			case k == 1 && len(p.Succs[0].Preds) == 1 && p.Succs[0].Dominates(b), k == -1 && len(p.Succs[1].Preds) == 1 && p.Succs[1].Dominates(b):
				return true
			}
		}
	}
	return false
}

// ruleAssigned: every success of the function sets the fields, and none of them is read before.
func ruleAssigned(p *Prog, r *Report, rel, typ, method string, fields ...string) {
	r.rule("definite-assignment: on every successful path of " + typ + "." + method + " (following the object through the functions it is handed to) each listed field is assigned, and none is read before it is")
	f := findFn(p, rel, typ+"."+method)
	t := p.typ(rel, typ)
	if f == nil || t == nil {
		r.notes = append(r.notes, "not decided: "+typ+"."+method+" is not there")
		r.count("undecided", 1)
		return
	}
	a := &assignAn{p: p, typ: t, memo: map[string]*assignSum{}, busy: map[*ssa.Function]bool{}}
	must := a.run(f, 0, fieldSet{})
	early := map[string]string{}
	b := &assignAn{p: p, typ: t, memo: map[string]*assignSum{}, busy: map[*ssa.Function]bool{}}
	b.read = func(g *ssa.Function, in ssa.Instruction, n string) {
		if must[n] && early[n] == "" {
			early[n] = fname(g) + " at " + p.pos(in.Pos())
		}
	}
	b.run(f, 0, fieldSet{})
	if a.dyn {
		r.notes = append(r.notes, "not decided: definite assignment in "+typ+"."+method+": the object is used by function values")
		r.count("undecided", 1)
		return
	}
	st := structOf(t)
	for _, n := range fields {
		has := false
		for i := 0; i < st.NumFields(); i++ {
			has = has || st.Field(i).Name() == n
		}
		if !has {
			continue
		}
		r.ob(must[n], "definite-assignment", typ+"."+n, p.pos(f.Pos()), "the field is not set on every successful path of "+method)
		if must[n] {
			r.ob(early[n] == "", "definite-assignment", typ+"."+n+" before use", p.pos(f.Pos()), "the field is read before it is set: "+early[n])
		}
	}
}
