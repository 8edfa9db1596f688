package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Regions: when a loop writes through a pointer that differs from one iteration to the next, the memory behind all
// pointers of that type becomes one location, a map from pointers to contents. Pointers written differently
// (different fields, elements or entries) are taken to be different, as everywhere in this analysis.

type regionNeeded struct{ t types.Type }

func (e *Eng) needRegion(o *Obj) {
	if o.kind == 'v' && o.typ != nil && structOf(o.typ) != nil {
		panic(regionNeeded{o.typ})
	}
	if o.key != nil && (o.kind == 'a' || o.kind == 'm') {
		k := o.key
		for k.op == "app" && strings.HasPrefix(k.s, ".") && len(k.args) == 1 {
			k = k.args[0]
		}
		if k.isApp("*") && k.typ != nil && structOf(k.typ) != nil && !e.opts.region[types.TypeString(k.typ, nil)] {
			panic(regionNeeded{k.typ})
		}
	}
}

func (e *Eng) regionFor(t types.Type) *Obj {
	if len(e.opts.region) == 0 || t == nil {
		return nil
	}
	s := types.TypeString(t, nil)
	if !e.opts.region[s] {
		return nil
	}
	if o := e.regions[s]; o != nil {
		return o
	}
	o := e.newObj('r', "mem "+s, t, nil)
	o.init = e.b.mk(Term{op: "sym", kind: 'o', s: "mem0:" + s})
	if o.init.typ == nil {
		o.init.typ = types.NewMap(types.NewPointer(t), t)
	}
	e.regions[s] = o
	return o
}

func (e *Eng) mk(k *Term) *Term { return e.b.mk(Term{op: "mk", kind: 'o', args: []*Term{k}}) }

func isMem0(t *Term) bool { return t.op == "sym" && strings.HasPrefix(t.s, "mem0:") }

// ptrEq: do two pointers of a region point to the same thing?
func (b *TB) ptrEq(x, y *Term) *Term {
	if x == y {
		return b.T()
	}
	lam := func(t *Term) bool { return t.op == "sym" && !strings.HasPrefix(t.s, "p") }
	if lam(x) || lam(y) {
		return b.eq(x, y)
	}
	if x.op != y.op || x.s != y.s || len(x.args) != len(y.args) {
		return b.F()
	}
	d := -1
	for i := range x.args {
		if x.args[i] != y.args[i] {
			if d >= 0 {
				return b.F()
			}
			d = i
		}
	}
	if d < 0 {
		return b.F()
	}
	u, v := x.args[d], y.args[d]
	if x.isApp("ref") {
		return b.F()
	}
	if u.kind == 'n' || u.kind == 's' {
		return b.eq(u, v)
	}
	return b.ptrEq(u, v)
}

func (b *TB) rget(m, k *Term, typ types.Type) *Term {
	if m.op == "ite" || k.op == "ite" {
		return b.lift2(m, k, func(m, k *Term) *Term { return b.rget(m, k, typ) })
	}
	switch {
	case isMem0(m), k.isApp("ref"):
		return b.deref(k, typ)
	case m.isApp("rput"):
		return b.ite(b.ptrEq(m.args[1], k), m.args[2], b.rget(m.args[0], k, typ))
	}
	return b.app("rget", typ, m, k)
}

func (b *TB) rput(m, k, v *Term) *Term {
	if m.op == "ite" || k.op == "ite" {
		return b.lift2(m, k, func(m, k *Term) *Term { return b.rput(m, k, v) })
	}
	if m.isApp("rput") {
		if m.args[1] == k {
			return b.rput(m.args[0], k, v)
		}
		if m.args[1].id > k.id && b.ptrEq(m.args[1], k).isFalse() {
			return b.rput(b.rput(m.args[0], k, v), m.args[1], m.args[2])
		}
	}
	if isMem0(m) && v == b.deref(k, v.typ) {
		return m
	}
	if v.isApp("rget") && v.args[0] == m && v.args[1] == k {
		return m
	}
	return b.mk(Term{op: "app", kind: 'o', s: "rput", args: []*Term{m, k, v}, typ: m.typ})
}

func (e *Eng) regionNames() string {
	var s []string
	for k := range e.opts.region {
		s = append(s, k)
	}
	return fmt.Sprint(s)
}

// owned: the types of what lies in an object of type t, or in the slices and maps it holds.
func owned(t types.Type, out map[string]bool) {
	s := types.TypeString(t, nil)
	if out[s] {
		return
	}
	out[s] = true
	switch u := t.Underlying().(type) {
	case *types.Slice:
		out[types.TypeString(u, nil)] = true
		owned(u.Elem(), out)
	case *types.Array:
		owned(u.Elem(), out)
	case *types.Map:
		out[types.TypeString(u, nil)] = true
		owned(u.Elem(), out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if c := u.Field(i).Type(); !isBasicT(c) {
				owned(c, out)
			}
		}
	}
}

func isBasicT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}
