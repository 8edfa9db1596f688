package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sharing analysis: a flow-, context- and field-sensitive abstract interpretation of the heap. It tells which memory
// a function reached from the document writes: objects of the document (as they were when the call started) and
// objects made since are kept apart; copying a struct copies its pointers, so what a copy shares with the document
// is known until the fields are given memory of their own.

type hObj struct {
	id   int
	doc  bool // part of the document
	name string
	typ  types.Type
	up   *hObj
	kids map[string]*hObj
}

type hRef struct {
	o    *hObj
	path string
}

type hSet map[hRef]bool

// hVal: the pointers in a value, by the path to them ("" for the value itself).
type hVal map[string]hSet

func (v hVal) add(path string, s hSet) {
	if len(s) == 0 {
		return
	}
	m := v[path]
	if m == nil {
		m = hSet{}
		v[path] = m
	}
	for r := range s {
		m[r] = true
	}
}

func (v hVal) join(o hVal) {
	for p, s := range o {
		v.add(p, s)
	}
}

func (v hVal) all() hSet {
	s := hSet{}
	for _, x := range v {
		for r := range x {
			s[r] = true
		}
	}
	return s
}

// under: the part of a value at a path.
func (v hVal) under(p string) hVal {
	o := hVal{}
	for k, s := range v {
		if k == p {
			o.add("", s)
		} else if strings.HasPrefix(k, p) {
			o.add(k[len(p):], s)
		}
	}
	return o
}

// hHeap: the pointers stored in objects. A cell that is absent holds what it held in the document at the start.
type hHeap map[hRef]hSet

func (h hHeap) clone() hHeap {
	o := make(hHeap, len(h))
	for k, v := range h {
		o[k] = v
	}
	return o
}

func (h hHeap) same(g hHeap) bool {
	if len(h) != len(g) {
		return false
	}
	for k, v := range h {
		w, ok := g[k]
		if !ok || len(v) != len(w) {
			return false
		}
		for r := range v {
			if !w[r] {
				return false
			}
		}
	}
	return true
}

type shareAn struct {
	p      *Prog
	n      int
	objs   map[string]*hObj
	exempt func(t types.Type) bool
	wrote  func(f *ssa.Function, in ssa.Instruction, r hRef)
	root   map[string]*hObj
	stack  []*ssa.Function
	rec    map[*ssa.Function]*shareRec
	ctx    string
	steps  int
	funcs  map[*ssa.Function]bool
	calls  int
	stores int
	memo   map[string]*shareMemo
	low    int // lowest stack position a recursive call went back to
}

// shareMemo: the last evaluation of a call.
type shareMemo struct {
	args, free []hVal
	in, out    hHeap
	res        hVal
}

func sameVals(x, y []hVal) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !sameHVal(x[i], y[i]) {
			return false
		}
	}
	return true
}

func sameHVal(x, y hVal) bool {
	if count(x) != count(y) {
		return false
	}
	for p, s := range x {
		for r := range s {
			if !y[p][r] {
				return false
			}
		}
	}
	return true
}

type shareRec struct {
	args  []hVal
	free  []hVal
	heap  hHeap
	res   hVal
	out   hHeap
	grown bool
	used  bool
}

type shareLimit struct{}

func (a *shareAn) obj(key string, t types.Type, name string) *hObj {
	if o := a.objs[key]; o != nil {
		return o
	}
	a.n++
	o := &hObj{id: a.n, name: name, typ: t, kids: map[string]*hObj{}}
	a.objs[key] = o
	return o
}

// docObj: the object a cell of the document refers to.
func (a *shareAn) docObj(r hRef, t types.Type) *hObj {
	k := r.path + "|" + types.TypeString(t, nil)
	if o := r.o.kids[k]; o != nil {
		return o
	}
	for u := r.o; u != nil; u = u.up {
		if u.typ != nil && types.Identical(u.typ, t) {
			r.o.kids[k] = u
			return u
		}
	}
	a.n++
	o := &hObj{id: a.n, doc: true, name: r.o.name + r.path, typ: t, up: r.o, kids: map[string]*hObj{}}
	r.o.kids[k] = o
	return o
}

// pointees: the type of the memory a pointer-like value leads to.
func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice, *types.Map:
		return t
	}
	return t
}

// ptrLeaves: the pointers in a value of type t.
func ptrLeaves(t types.Type, path string, d int, f func(path string, t types.Type)) {
	if d > 5 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		f(path, t)
	case *types.Interface:
		if !isErrorT(t) {
			f(path, t)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ptrLeaves(u.Field(i).Type(), path+"."+u.Field(i).Name(), d+1, f)
		}
	case *types.Array:
		ptrLeaves(u.Elem(), path+"[]", d+1, f)
	}
}

func (a *shareAn) exemptObj(o *hObj) bool {
	for u := o; u != nil; u = u.up {
		if u.typ != nil && a.exempt(u.typ) {
			return true
		}
	}
	return false
}

func (a *shareAn) loadCell(h hHeap, r hRef, t types.Type) hSet {
	if s, ok := h[r]; ok {
		return s
	}
	if !r.o.doc {
		return nil
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return nil
	}
	return hSet{hRef{a.docObj(r, pointee(t)), ""}: true}
}

func (a *shareAn) load(h hHeap, at hSet, t types.Type) hVal {
	v := hVal{}
	for r := range at {
		ptrLeaves(t, "", 0, func(p string, lt types.Type) {
			v.add(p, a.loadCell(h, hRef{r.o, r.path + p}, lt))
		})
	}
	return v
}

func weak(path string) bool { return strings.Contains(path, "[]") || strings.Contains(path, "{}") }

func (a *shareAn) store(f *ssa.Function, in ssa.Instruction, h hHeap, at hSet, t types.Type, v hVal) {
	a.stores++
	for r := range at {
		if r.o.doc && !a.exemptObj(r.o) {
			a.wrote(f, in, r)
		}
		ptrLeaves(t, "", 0, func(p string, lt types.Type) {
			c := hRef{r.o, r.path + p}
			s := hSet{}
			if len(at) > 1 || weak(c.path) || r.o.doc {
				for x := range a.loadCell(h, c, lt) {
					s[x] = true
				}
			}
			for x := range v[p] {
				s[x] = true
			}
			h[c] = s
		})
	}
}

// leadsToDoc: is document memory reachable from the value?
func (a *shareAn) leadsToDoc(h hHeap, vs ...hVal) bool {
	seen := map[*hObj]bool{}
	var work []*hObj
	push := func(s hSet) bool {
		for r := range s {
			if r.o.doc && !a.exemptObj(r.o) {
				return true
			}
			if !seen[r.o] {
				seen[r.o] = true
				work = append(work, r.o)
			}
		}
		return false
	}
	for _, v := range vs {
		if push(v.all()) {
			return true
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for c, s := range h {
			if c.o == o && push(s) {
				return true
			}
		}
	}
	return false
}

type shareFrame struct {
	a    *shareAn
	f    *ssa.Function
	regs map[ssa.Value]hVal
	free []hVal
	ctx  string
}

func (fr *shareFrame) val(v ssa.Value) hVal {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return hVal{"": hSet{hRef{fr.a.obj("G:"+x.String(), pointee(x.Type()), x.Name()), ""}: true}}
	case *ssa.FreeVar:
		for i, y := range fr.f.FreeVars {
			if y == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
		return nil
	case *ssa.Function:
		return nil
	}
	return fr.regs[v]
}

func step(s hSet, p string) hVal {
	o := hSet{}
	for r := range s {
		o[hRef{r.o, r.path + p}] = true
	}
	return hVal{"": o}
}

// call interprets f; nil when it does not return.
func (a *shareAn) call(f *ssa.Function, args, free []hVal, h hHeap, ctx string) (hVal, hHeap) {
	for gi, g := range a.stack {
		if g == f {
			rc := a.rec[f]
			rc.used = true
			a.low = min(a.low, gi)
			for i := range args {
				before := count(rc.args[i])
				rc.args[i].join(args[i])
				if count(rc.args[i]) != before {
					rc.grown = true
				}
			}
			for i := range free {
				before := count(rc.free[i])
				rc.free[i].join(free[i])
				if count(rc.free[i]) != before {
					rc.grown = true
				}
			}
			nh := a.joinHeap(rc.heap, h)
			if !nh.same(rc.heap) {
				rc.heap = nh
				rc.grown = true
			}
			return rc.res, rc.out
		}
	}
	if len(a.stack) > 60 {
		panic(shareLimit{})
	}
	mk := ctx + "|" + f.String()
	if m := a.memo[mk]; m != nil && sameVals(m.args, args) && sameVals(m.free, free) && m.in.same(h) {
		return m.res, m.out
	}
	low, me := a.low, len(a.stack)
	a.low = 1 << 30
	done := func(res hVal, out hHeap) (hVal, hHeap) {
		back := a.low < me
		a.low = min(a.low, low)
		if !back {
			cp := func(vs []hVal) []hVal {
				o := make([]hVal, len(vs))
				for i, v := range vs {
					o[i] = hVal{}
					o[i].join(v)
				}
				return o
			}
			a.memo[mk] = &shareMemo{args: cp(args), free: cp(free), in: h.clone(), out: out, res: res}
		}
		return res, out
	}
	a.stack = append(a.stack, f)
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	a.funcs[f] = true
	a.calls++
	cp := func(vs []hVal, n int) []hVal {
		out := make([]hVal, n)
		for i := range out {
			out[i] = hVal{}
			if i < len(vs) {
				out[i].join(vs[i])
			}
		}
		return out
	}
	old := a.rec[f]
	rc := &shareRec{args: cp(args, len(f.Params)), free: cp(free, len(f.FreeVars)), heap: h}
	a.rec[f] = rc
	defer func() { a.rec[f] = old }()
	for {
		rc.grown, rc.used = false, false
		res, out := a.body(f, rc, ctx)
		if !rc.used {
			return done(res, out)
		}
		if rc.res == nil {
			rc.res = hVal{}
		}
		n := count(rc.res)
		rc.res.join(res)
		no := rc.out
		if no == nil {
			no = out
		} else if out != nil {
			no = a.joinHeap(rc.out, out)
		}
		if !rc.grown && count(rc.res) == n && (rc.out == nil && no == nil || rc.out != nil && no != nil && no.same(rc.out)) {
			return done(rc.res, no)
		}
		rc.out = no
	}
}

func count(v hVal) int {
	n := 0
	for _, s := range v {
		n += len(s)
	}
	return n
}

func (a *shareAn) joinHeap(x, y hHeap) hHeap {
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	o := make(hHeap, len(x))
	get := func(h hHeap, c hRef) (hSet, bool) {
		if s, ok := h[c]; ok {
			return s, true
		}
		return nil, false
	}
	merge := func(c hRef) {
		if _, ok := o[c]; ok {
			return
		}
		s1, ok1 := get(x, c)
		s2, ok2 := get(y, c)
		s := hSet{}
		for r := range s1 {
			s[r] = true
		}
		for r := range s2 {
			s[r] = true
		}
		if c.o.doc && (!ok1 || !ok2) {
			// still what it was in the document on one side
			for _, k := range c.o.kids {
				if k.name == c.o.name+c.path {
					s[hRef{k, ""}] = true
				}
			}
		}
		o[c] = s
	}
	for c := range x {
		merge(c)
	}
	for c := range y {
		merge(c)
	}
	return o
}

func (a *shareAn) body(f *ssa.Function, rc *shareRec, ctx string) (hVal, hHeap) {
	fr := &shareFrame{a: a, f: f, regs: map[ssa.Value]hVal{}, free: rc.free, ctx: ctx}
	for i, p := range f.Params {
		fr.regs[p] = rc.args[i]
	}
	in := map[*ssa.BasicBlock]hHeap{f.Blocks[0]: rc.heap.clone()}
	var res hVal
	var out hHeap
	dirty := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	for len(dirty) > 0 {
		a.steps++
		if a.steps > 2000000 {
			panic(shareLimit{})
		}
		var b *ssa.BasicBlock
		for _, x := range f.Blocks {
			if dirty[x] {
				b = x
				break
			}
		}
		delete(dirty, b)
		h := in[b].clone()
		regsChanged := false
		dead := false
		for _, i := range b.Instrs {
			ch, d := fr.step(i, h)
			if ch {
				regsChanged = true
			}
			if d {
				dead = true
				break
			}
			if ret, ok := i.(*ssa.Return); ok {
				if res == nil {
					res = hVal{}
				}
				for k, r := range ret.Results {
					v := fr.val(r)
					if len(ret.Results) == 1 {
						res.join(v)
						continue
					}
					for p, s := range v {
						res.add(fmt.Sprintf("#%d%s", k, p), s)
					}
				}
				out = a.joinHeap(out, h)
			}
		}
		if dead {
			continue
		}
		for _, s := range b.Succs {
			o, ok := in[s]
			n := h
			if ok {
				n = a.joinHeap(o, h)
			}
			if !ok || !n.same(o) {
				in[s] = n
				dirty[s] = true
			}
		}
		if regsChanged {
			// users in other blocks see a larger value
			for _, x := range f.Blocks {
				if _, ok := in[x]; ok && x != b {
					dirty[x] = true
				}
			}
		}
	}
	if out != nil && res == nil {
		res = hVal{}
	}
	return res, out
}

// step interprets one instruction; changed: a register got larger; dead: the call does not return.
func (fr *shareFrame) step(in ssa.Instruction, h hHeap) (changed, dead bool) {
	a := fr.a
	set := func(v ssa.Value, n hVal) {
		if len(n) == 0 {
			return
		}
		o := fr.regs[v]
		if o == nil {
			o = hVal{}
			fr.regs[v] = o
		}
		c := count(o)
		o.join(n)
		if count(o) != c {
			changed = true
		}
	}
	fresh := func(v ssa.Value, t types.Type) hRef {
		o := a.obj(fmt.Sprintf("%s/%s.%s", fr.ctx, fr.f.String(), v.Name()), t, v.Name())
		return hRef{o, ""}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		r := fresh(x, x.Type().Underlying().(*types.Pointer).Elem())
		for c := range h {
			if c.o == r.o {
				h[c] = hSet{}
			}
		}
		set(x, hVal{"": hSet{r: true}})
	case *ssa.MakeSlice:
		set(x, hVal{"": hSet{fresh(x, x.Type()): true}})
	case *ssa.MakeMap:
		set(x, hVal{"": hSet{fresh(x, x.Type()): true}})
	case *ssa.MakeChan:
		set(x, hVal{"": hSet{fresh(x, x.Type()): true}})
	case *ssa.MakeClosure:
		r := fresh(x, x.Type())
		for i, b := range x.Bindings {
			for p, s := range fr.val(b) {
				c := hRef{r.o, fmt.Sprintf("$%d%s", i, p)}
				n := hSet{}
				for q := range h[c] {
					n[q] = true
				}
				for q := range s {
					n[q] = true
				}
				h[c] = n
			}
		}
		set(x, hVal{"": hSet{r: true}})
	case *ssa.Phi:
		for _, e := range x.Edges {
			set(x, fr.val(e))
		}
	case *ssa.ChangeType:
		set(x, fr.val(x.X))
	case *ssa.ChangeInterface:
		set(x, fr.val(x.X))
	case *ssa.MakeInterface:
		set(x, fr.val(x.X))
	case *ssa.TypeAssert:
		v := fr.val(x.X)
		if x.CommaOk {
			w := hVal{}
			for p, s := range v {
				w.add("#0"+p, s)
			}
			v = w
		}
		set(x, v)
	case *ssa.Convert:
		// string <-> []byte copies
	case *ssa.Slice:
		v := fr.val(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			// of an array: the slice shares its elements
			o := hSet{}
			for r := range v[""] {
				o[r] = true
			}
			set(x, hVal{"": o})
			break
		}
		set(x, hVal{"": v[""]})
	case *ssa.SliceToArrayPointer:
		set(x, fr.val(x.X))
	case *ssa.FieldAddr:
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
		set(x, step(fr.val(x.X)[""], "."+n))
	case *ssa.IndexAddr:
		set(x, step(fr.val(x.X)[""], "[]"))
	case *ssa.Field:
		n := x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		set(x, fr.val(x.X).under("."+n))
	case *ssa.Index:
		set(x, fr.val(x.X).under("[]"))
	case *ssa.Extract:
		set(x, fr.val(x.Tuple).under(fmt.Sprintf("#%d", x.Index)))
	case *ssa.Lookup:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			break
		}
		v := a.load(h, step(fr.val(x.X)[""], "{}")[""], mt.Elem())
		if x.CommaOk {
			w := hVal{}
			for p, s := range v {
				w.add("#0"+p, s)
			}
			v = w
		}
		set(x, v)
	case *ssa.Range:
		set(x, fr.val(x.X))
	case *ssa.Next:
		if x.IsString {
			break
		}
		rg, ok := x.Iter.(*ssa.Range)
		if !ok {
			break
		}
		mt, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			break
		}
		w := hVal{}
		for p, s := range a.load(h, step(fr.val(rg.X)[""], "{}")[""], mt.Elem()) {
			w.add("#2"+p, s)
		}
		set(x, w)
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if _, ok := x.X.(*ssa.Function); ok {
				break
			}
			set(x, a.load(h, fr.val(x.X)[""], x.Type()))
		}
	case *ssa.Store:
		a.store(fr.f, in, h, fr.val(x.Addr)[""], x.Val.Type(), fr.val(x.Val))
	case *ssa.MapUpdate:
		mt, ok := x.Map.Type().Underlying().(*types.Map)
		if ok {
			a.store(fr.f, in, h, step(fr.val(x.Map)[""], "{}")[""], mt.Elem(), fr.val(x.Value))
		}
	case ssa.CallInstruction:
		return fr.callInstr(x, h, set, &changed)
	}
	return
}

func (fr *shareFrame) callInstr(x ssa.CallInstruction, h hHeap, set func(ssa.Value, hVal), changed *bool) (bool, bool) {
	a := fr.a
	cc := x.Common()
	var args []hVal
	if cc.IsInvoke() {
		args = append(args, fr.val(cc.Value))
	}
	for _, v := range cc.Args {
		args = append(args, fr.val(v))
	}
	v, _ := x.(ssa.Value)
	callv := x.Value()
	name := calleeName(cc)
	if strings.HasPrefix(name, "builtin.") {
		switch name {
		case "builtin.append":
			st, _ := cc.Args[0].Type().Underlying().(*types.Slice)
			r := hRef{a.obj(fmt.Sprintf("%s/%s.%s", fr.ctx, fr.f.String(), v.Name()), cc.Args[0].Type(), v.Name()), ""}
			if st != nil {
				w := a.load(h, step(args[0][""], "[]")[""], st.Elem())
				if len(args) > 1 {
					w.join(a.load(h, step(args[1][""], "[]")[""], st.Elem()))
				}
				ptrLeaves(st.Elem(), "", 0, func(p string, _ types.Type) {
					c := hRef{r.o, "[]" + p}
					n := hSet{}
					for q := range h[c] {
						n[q] = true
					}
					for q := range w[p] {
						n[q] = true
					}
					h[c] = n
				})
				// with spare capacity, the elements go where the first argument points
				for q := range args[0][""] {
					if q.o.doc {
						continue // behind its end: not part of the document
					}
					ptrLeaves(st.Elem(), "", 0, func(p string, _ types.Type) {
						c := hRef{q.o, q.path + "[]" + p}
						n := hSet{}
						for z := range h[c] {
							n[z] = true
						}
						for z := range w[p] {
							n[z] = true
						}
						h[c] = n
					})
				}
			}
			o := hSet{r: true}
			for q := range args[0][""] {
				o[q] = true
			}
			set(v, hVal{"": o})
		case "builtin.copy":
			if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				w := hVal{}
				if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
					w = a.load(h, step(args[1][""], "[]")[""], st.Elem())
				}
				a.store(fr.f, x, h, step(args[0][""], "[]")[""], st.Elem(), w)
			}
		case "builtin.delete", "builtin.clear":
			for r := range args[0][""] {
				if r.o.doc && !a.exemptObj(r.o) {
					a.wrote(fr.f, x, r)
				}
			}
		}
		return *changed, false
	}
	var lib []*ssa.Function
	for _, g := range a.p.callees[x] {
		if a.p.inLib[g] && len(g.Blocks) > 0 {
			lib = append(lib, g)
		}
	}
	if len(lib) > 0 {
		var closures []*hObj
		if !cc.IsInvoke() && cc.StaticCallee() == nil {
			for r := range fr.val(cc.Value)[""] {
				closures = append(closures, r.o)
			}
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for r := range fr.val(mc)[""] {
				closures = append(closures, r.o)
			}
		}
		var res hVal
		var out hHeap
		for _, g := range lib {
			free := make([]hVal, len(g.FreeVars))
			for i := range free {
				free[i] = hVal{}
				pre := fmt.Sprintf("$%d", i)
				for _, o := range closures {
					for c, s := range h {
						if c.o == o && strings.HasPrefix(c.path, pre) {
							free[i].add(c.path[len(pre):], s)
						}
					}
				}
			}
			if !a.leadsToDoc(h, append(append([]hVal{}, args...), free...)...) {
				// it can only touch what is not the document
				if res == nil {
					res = hVal{}
				}
				out = a.joinHeap(out, h)
				if callv != nil {
					rt := callv.Type()
					k := 0
					if tu, ok := rt.(*types.Tuple); ok {
						for ; k < tu.Len(); k++ {
							a.freshResult(fr, callv, res, fmt.Sprintf("#%d", k), tu.At(k).Type())
						}
					} else {
						a.freshResult(fr, callv, res, "", rt)
					}
				}
				continue
			}
			ctx := fr.ctx + fmt.Sprintf(">%d", a.site(x))
			r, o := a.call(g, args, free, h, ctx)
			if o == nil {
				continue
			}
			if res == nil {
				res = hVal{}
			}
			res.join(r)
			out = a.joinHeap(out, o)
		}
		if out == nil {
			return *changed, true
		}
		for c := range h {
			if _, ok := out[c]; !ok {
				delete(h, c)
			}
		}
		for c, s := range out {
			h[c] = s
		}
		if callv != nil {
			set(callv, res)
		}
		return *changed, false
	}
	// library functions
	for _, i := range writesArgs(cc) {
		k := i
		if k >= len(args) {
			continue
		}
		for r := range args[k][""] {
			if r.o.doc && !a.exemptObj(r.o) {
				a.wrote(fr.f, x, r)
			}
		}
	}
	if callv == nil {
		return *changed, false
	}
	res := hVal{}
	al := hSet{}
	for _, i := range aliasArgs(name) {
		if i < len(args) {
			for r := range args[i][""] {
				al[r] = true
			}
		}
	}
	put := func(pre string, t types.Type) {
		a.freshResult(fr, callv, res, pre, t)
		if len(al) > 0 && pointerLike(t) {
			if pre == "" || pre == "#0" {
				switch name {
				case "bytes.NewBuffer", "bytes.NewReader", "bufio.NewReader", "bufio.NewWriter", "bufio.NewScanner", "io.LimitReader", "io.TeeReader":
					for r := range res[pre] {
						h[hRef{r.o, "~"}] = al
					}
				case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next":
					for r := range al {
						res.add(pre, h[hRef{r.o, r.path + "~"}])
					}
				default:
					res.add(pre, al)
				}
			}
		}
	}
	if tu, ok := callv.Type().(*types.Tuple); ok {
		for k := 0; k < tu.Len(); k++ {
			put(fmt.Sprintf("#%d", k), tu.At(k).Type())
		}
	} else {
		put("", callv.Type())
	}
	set(callv, res)
	return *changed, false
}

func (a *shareAn) freshResult(fr *shareFrame, v ssa.Value, res hVal, pre string, t types.Type) {
	ptrLeaves(t, "", 0, func(p string, lt types.Type) {
		o := a.obj(fmt.Sprintf("%s/%s.%s%s%s", fr.ctx, fr.f.String(), v.Name(), pre, p), pointee(lt), v.Name())
		res.add(pre+p, hSet{hRef{o, ""}: true})
	})
}

func (a *shareAn) site(x ssa.CallInstruction) int { return int(x.Pos()) }

// ruleShare: what entry reaches of the document is not written while it runs.
func ruleShare(p *Prog, r *Report, entries []*ssa.Function, exempt func(types.Type) bool) {
	r.rule("sharing analysis: a flow-, context- and field-sensitive abstract interpretation of the heap from the entry points finds no write (store, copy, in-place library call) to memory that was part of the document before; the memory of copies is told apart from what they share")
	for _, f := range entries {
		type hit struct{ pos, msg, fn string }
		hits := map[string]hit{}
		a := &shareAn{p: p, objs: map[string]*hObj{}, exempt: exempt, rec: map[*ssa.Function]*shareRec{}, funcs: map[*ssa.Function]bool{}, memo: map[string]*shareMemo{}, low: 1 << 30}
		a.wrote = func(g *ssa.Function, in ssa.Instruction, ref hRef) {
			pos := p.pos(in.Pos())
			hits[pos+ref.path] = hit{pos, "document" + ref.o.name + ref.path, fname(g)}
		}
		ok := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("VERIF_DEBUG") == "2" {
						for _, g := range a.stack {
							fmt.Println("   ", fname(g))
						}
						fmt.Println(x, a.steps, a.n, a.calls)
					}
					ok = false
				}
			}()
			args := make([]hVal, len(f.Params))
			t := f.Params[0].Type().Underlying().(*types.Pointer).Elem()
			a.n++
			args[0] = hVal{"": hSet{hRef{&hObj{id: a.n, doc: true, typ: t, kids: map[string]*hObj{}}, ""}: true}}
			a.call(f, args, nil, hHeap{}, "")
			return true
		}()
		if !ok {
			r.notes = append(r.notes, "sharing analysis of "+fname(f)+" not finished")
			r.count("undecided", 1)
			continue
		}
		r.count("functions_interpreted", len(a.funcs))
		r.count("calls_interpreted", a.calls)
		r.count("stores_interpreted", a.stores)
		var ks []string
		for k := range hits {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			h := hits[k]
			r.ob(false, "sharing", fname(f)+"/"+h.fn+"/"+h.msg, h.pos, fmt.Sprintf("%s writes to %s, which belongs to the document (call of %s)", h.fn, h.msg, fname(f)))
		}
		r.ob(true, "sharing", fname(f), p.pos(f.Pos()), "")
	}
}

func ruleC13(p *Prog, r *Report) {
	var es []*ssa.Function
	for _, f := range p.exportedAPI("") {
		rv := f.Signature.Recv()
		if rv != nil && strings.HasSuffix(rv.Type().String(), ".PDFt") && strings.HasPrefix(f.Name(), "Save") {
			es = append(es, f)
		}
	}
	r.count("entry_points", len(es))
	ruleShare(p, r, es, func(t types.Type) bool {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return false
		}
		switch n.Obj().Name() {
		case "PDFFontData", "PDFImageData":
			return true
		}
		return strings.Contains(n.Obj().Pkg().Path(), "/minigopdf")
	})
}
