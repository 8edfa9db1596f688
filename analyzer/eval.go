package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The value-graph analysis: every function is turned into a term for each result and each written location.
// Control flow is joined at every merge (gated values), loops become closed forms or folds, calls of functions of
// the library are summarised in place. Nothing is executed and no path is enumerated.

// Obj is an abstract memory object.
type Obj struct {
	id   int
	name string
	typ  types.Type // type of the content (element type for arrays)
	kind byte       // v variable, a array behind slices, m map, i iterator
	key  *Term      // the pointer value this object stands behind, if it existed before the call
	init *Term
	base *Term // iterators: the sequence iterated over
	aux  *Term

	local bool // the initial content has a meaning only inside the loop that created the object
}

type State struct {
	heap map[*Obj]*Term
	pc   *Term
	over map[ssa.Value]*Term
}

func (s *State) clone() *State {
	n := &State{heap: make(map[*Obj]*Term, len(s.heap)), pc: s.pc}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	if len(s.over) > 0 {
		n.over = make(map[ssa.Value]*Term, len(s.over))
		for k, v := range s.over {
			n.over[k] = v
		}
	}
	return n
}

type typeKey struct{ t types.Type }

type evalOpts struct {
	opaque  map[*ssa.Function]bool          // calls of these stay uninterpreted
	keepErr bool                            // errors are results like others (all errors are the same value)
	alias   map[*ssa.Function]*ssa.Function // names of functions inside the specification
	cells   []*Term                         // captured variables that unknown functions may write
	noHavoc bool
	paired  bool            // inner functions are compared with their counterparts one by one
	region  map[string]bool // types whose objects form a region
}

type Eng struct {
	pre     *Term // assumed of the inputs
	p       *Prog
	b       *TB
	eff     *effects
	opts    evalOpts
	syms    map[*Term]*Obj
	objs    []*Obj
	tkeys   map[string]*typeKey
	rec     map[*ssa.Function]bool
	calls   map[*ssa.Function]map[*ssa.Function]bool
	kept    map[string]bool
	stack   []*ssa.Function
	globals map[*ssa.Global]*Obj
	ginit   map[*ssa.Package]bool
	steps   int
	inlined map[*ssa.Function]bool
	opaqued map[string]bool
	trial   int
	loops   int
	heap0   map[*Obj]*Term
	regions map[string]*Obj
}

func newEng(p *Prog) *Eng {
	e := &Eng{p: p, b: newTB(), syms: map[*Term]*Obj{}, tkeys: map[string]*typeKey{}, globals: map[*ssa.Global]*Obj{},
		ginit: map[*ssa.Package]bool{}, inlined: map[*ssa.Function]bool{}, opaqued: map[string]bool{}, heap0: map[*Obj]*Term{}, regions: map[string]*Obj{}}
	e.b.ptrHook = e.rekey
	e.b.elemHook = func(t *Term) types.Type { return nil }
	e.findRecursive()
	e.findKept()
	return e
}

func (e *Eng) findRecursive() {
	e.rec = map[*ssa.Function]bool{}
	e.calls = map[*ssa.Function]map[*ssa.Function]bool{}
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range e.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					succ[f] = append(succ[f], e.p.callees[c]...)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					succ[f] = append(succ[f], mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range e.p.funcs {
		seen := map[*ssa.Function]bool{}
		var st []*ssa.Function
		st = append(st, succ[f]...)
		for len(st) > 0 {
			g := st[len(st)-1]
			st = st[:len(st)-1]
			if g == f {
				e.rec[f] = true
			}
			if seen[g] {
				continue
			}
			seen[g] = true
			st = append(st, succ[g]...)
		}
		if e.rec[f] {
			e.calls[f] = seen
		}
	}
}

// byName: is a call of f left uninterpreted because f is recursive? Functions that are mutually recursive with the one
// under analysis are inlined up to the call back of it.
func (e *Eng) byName(f *ssa.Function) bool {
	if !e.rec[f] {
		return false
	}
	if len(e.stack) == 0 || f == e.stack[0] || !e.rec[e.stack[0]] || !e.calls[f][e.stack[0]] || !e.calls[e.stack[0]][f] {
		return true
	}
	for _, g := range e.stack {
		if g == f {
			return true
		}
	}
	return false
}

// findKept: error variables that some code compares with; returning one of them is not simply "failed".
func (e *Eng) findKept() {
	e.kept = map[string]bool{}
	see := func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok && isErrorT(g.Type().(*types.Pointer).Elem()) {
				e.kept[g.String()] = true
			}
		}
	}
	for _, f := range e.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					see(x.X)
					see(x.Y)
				case *ssa.Call:
					if calleeName(x.Common()) == "errors.Is" {
						see(x.Call.Args[1])
					}
				}
			}
		}
	}
}

// keptBy: the distinguished errors a function may return.
func (e *Eng) keptBy(f *ssa.Function) []*ssa.Global {
	p := e.p
	if p.keptErrs == nil {
		p.keptErrs = map[*ssa.Function]map[*ssa.Global]bool{}
		for _, g := range p.funcs {
			p.keptErrs[g] = map[*ssa.Global]bool{}
		}
		for ch := true; ch; {
			ch = false
			for _, g := range p.funcs {
				for _, b := range g.Blocks {
					r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok || len(r.Results) == 0 || !isErrorT(r.Results[len(r.Results)-1].Type()) {
						continue
					}
					out := map[*ssa.Global]bool{}
					e.errSources(r.Results[len(r.Results)-1], b, out, map[ssa.Value]bool{})
					for k := range out {
						if !p.keptErrs[g][k] {
							p.keptErrs[g][k] = true
							ch = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Global
	for k := range p.keptErrs[f] {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (e *Eng) errSources(v ssa.Value, at *ssa.BasicBlock, out map[*ssa.Global]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	add := func(g *ssa.Global) {
		// not where a comparison has excluded it
		if refs := v.Referrers(); refs != nil {
			for _, in := range *refs {
				if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && (globalLoad(bo.X) == g || globalLoad(bo.Y) == g) {
					if br, ok := bo.Block().Instrs[len(bo.Block().Instrs)-1].(*ssa.If); ok && br.Cond == bo {
						i := 1
						if bo.Op == token.NEQ {
							i = 0
						}
						if t := bo.Block().Succs[i]; len(t.Preds) == 1 && t.Dominates(at) {
							return
						}
					}
				}
			}
		}
		out[g] = true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if g := globalLoad(x); g != nil && e.kept[g.String()] {
			out[g] = true
		}
	case *ssa.Phi:
		for i, y := range x.Edges {
			e.errSources(y, x.Block().Preds[i], out, seen)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			for _, g := range e.p.callees[c] {
				for k := range e.p.keptErrs[g] {
					add(k)
				}
			}
		}
	case *ssa.Call:
		for _, g := range e.p.callees[x] {
			for k := range e.p.keptErrs[g] {
				add(k)
			}
		}
	}
}

func globalLoad(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		g, _ := u.X.(*ssa.Global)
		return g
	}
	return nil
}

func (e *Eng) tkey(t types.Type) *typeKey {
	s := types.TypeString(t, nil)
	if k, ok := e.tkeys[s]; ok {
		return k
	}
	k := &typeKey{t}
	e.tkeys[s] = k
	return k
}

func (e *Eng) newObj(kind byte, name string, typ types.Type, init *Term) *Obj {
	o := &Obj{id: len(e.objs), name: fmt.Sprintf("%s#%d", name, len(e.objs)), typ: typ, kind: kind, init: init}
	e.objs = append(e.objs, o)
	return o
}

func (e *Eng) ptr(o *Obj, path ...*Term) *Term {
	return e.b.mk(Term{op: "ptr", kind: 'o', aux: o, args: path})
}
func (e *Eng) fld(i int) *Term { return e.b.mk(Term{op: "fld", kind: 'o', s: strconv.Itoa(i)}) }
func (e *Eng) at(i *Term) *Term {
	return e.b.mk(Term{op: "at", kind: 'o', args: []*Term{i}})
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

func isByteT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// toPtr turns symbolic pointer values into pointers to the object behind them.
func (e *Eng) toPtr(t *Term, elem types.Type) *Term {
	switch t.op {
	case "ite":
		return e.b.ite(t.args[0], e.toPtr(t.args[1], elem), e.toPtr(t.args[2], elem))
	case "ptr", "nil":
		return t
	}
	if o := e.regionFor(elem); o != nil {
		return e.ptr(o, e.mk(t))
	}
	return e.ptr(e.symObj(t, 'v', elem))
}

func (e *Eng) symObj(t *Term, kind byte, elem types.Type) *Obj {
	if o, ok := e.syms[t]; ok {
		return o
	}
	o := e.newObj(kind, t.show(12), elem, nil)
	o.key = t
	switch kind {
	case 'v':
		o.init = e.b.deref(t, elem)
	case 'a':
		o.init = e.b.elems(t)
	case 'm':
		o.init = e.b.mapof(t)
	}
	e.syms[t] = o
	return o
}

// rekey: a pointer term whose key changed by a substitution.
func (e *Eng) rekey(o *Obj, key *Term, path []*Term) *Term {
	var base *Term
	switch o.kind {
	case 'v', 'r':
		base = e.toPtr(key, o.typ)
	case 'a':
		if key.op == "slice" {
			base = key.args[0] // offset 0 assumed
		} else if key.op == "ptr" {
			base = key
		} else {
			base = e.ptr(e.symObj(key, 'a', o.typ))
		}
	case 'm':
		if key.op == "ptr" || key.op == "nil" {
			base = key
		} else {
			base = e.ptr(e.symObj(key, 'm', o.typ))
		}
	default:
		return e.ptr(o, path...)
	}
	return e.b.mapIte(base, func(l *Term) *Term {
		if l.op != "ptr" {
			return l
		}
		return e.ptr(l.aux.(*Obj), append(append([]*Term{}, l.args...), path...)...)
	})
}

func (e *Eng) ext(p *Term, el *Term) *Term {
	return e.b.mapIte(p, func(l *Term) *Term {
		if l.op != "ptr" {
			return l
		}
		return e.ptr(l.aux.(*Obj), append(append([]*Term{}, l.args...), el)...)
	})
}

func (e *Eng) content(st *State, o *Obj) *Term {
	if v, ok := st.heap[o]; ok {
		return v
	}
	if v, ok := e.heap0[o]; ok {
		return v
	}
	return o.init
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fieldOf: field i of a struct value of type typ.
func (e *Eng) fieldOf(v *Term, typ types.Type, i int) *Term {
	if v.op == "ite" {
		return e.b.mapIte(v, func(x *Term) *Term { return e.fieldOf(x, typ, i) })
	}
	if v.op == "struct" && v.s != "buf" && i < len(v.args) {
		return v.args[i]
	}
	f := structOf(typ).Field(i)
	return e.b.fieldNamed(v, f.Name(), f.Type())
}

func (e *Eng) expand(v *Term, typ types.Type) []*Term {
	s := structOf(typ)
	out := make([]*Term, s.NumFields())
	for i := range out {
		out[i] = e.fieldOf(v, typ, i)
	}
	return out
}

func (e *Eng) getPath(v *Term, typ types.Type, path []*Term) (*Term, types.Type) {
	for _, p := range path {
		switch p.op {
		case "mk":
			v = e.b.rget(v, p.args[0], typ)
		case "fld":
			i, _ := strconv.Atoi(p.s)
			v = e.fieldOf(v, typ, i)
			typ = structOf(typ).Field(i).Type()
		case "at":
			et := typ
			if a, ok := typ.Underlying().(*types.Array); ok {
				et = a.Elem()
			} else if s, ok := typ.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
			v = e.b.idx(v, p.args[0], et)
			typ = et
		}
	}
	return v, typ
}

func (e *Eng) setPath(v *Term, typ types.Type, path []*Term, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch p.op {
	case "mk":
		if len(path) > 1 {
			nv = e.setPath(e.b.rget(v, p.args[0], typ), typ, path[1:], nv)
		}
		return e.b.rput(v, p.args[0], nv)
	case "fld":
		i, _ := strconv.Atoi(p.s)
		fs := e.expand(v, typ)
		fs[i] = e.setPath(fs[i], structOf(typ).Field(i).Type(), path[1:], nv)
		return e.b.mkStruct(types.TypeString(typ, nil), typ, fs)
	case "at":
		et := elemType(typ)
		if len(path) > 1 {
			nv = e.setPath(e.b.idx(v, p.args[0], et), et, path[1:], nv)
		}
		return e.b.upd(v, p.args[0], nv, isByteT(et))
	}
	giveUp("path element %s", p.op)
	return nil
}

// content type: arrays behind slices behave like an array type of unknown length
func (o *Obj) ctype() types.Type {
	if o.kind == 'a' {
		return types.NewSlice(o.typ)
	}
	return o.typ
}

// load through a pointer term; nil alternatives are assumed not to be taken.
func (e *Eng) load(st *State, p *Term) *Term {
	switch p.op {
	case "ite":
		x, y := p.args[1], p.args[2]
		if x.isNil() {
			return e.load(st, y)
		}
		if y.isNil() {
			return e.load(st, x)
		}
		return e.b.ite(p.args[0], e.load(st, x), e.load(st, y))
	case "ptr":
		o := p.aux.(*Obj)
		v, _ := e.getPath(e.content(st, o), o.ctype(), p.args)
		return v
	}
	giveUp("load through %s", p.show(10))
	return nil
}

func (e *Eng) store(st *State, p, v *Term) {
	e.storeIf(st, p, v, e.b.T())
}

func (e *Eng) storeIf(st *State, p, v, c *Term) {
	switch p.op {
	case "ite":
		x, y := p.args[1], p.args[2]
		switch {
		case x.isNil():
			e.storeIf(st, y, v, c)
		case y.isNil():
			e.storeIf(st, x, v, c)
		default:
			e.storeIf(st, x, v, e.b.and(c, p.args[0]))
			e.storeIf(st, y, v, e.b.and(c, e.b.not(p.args[0])))
		}
	case "ptr":
		o := p.aux.(*Obj)
		old := e.content(st, o)
		nv := e.setPath(old, o.ctype(), p.args, v)
		st.heap[o] = e.b.ite(c, nv, old)
	default:
		giveUp("store through %s", p.show(10))
	}
}

// ---- slices

func (e *Eng) mkSlice(seq *Term, elem types.Type) *Term {
	o := e.newObj('a', "arr", elem, seq)
	return e.sliceT(e.ptr(o), e.b.int(0), e.b.seqLen(seq))
}
func (e *Eng) sliceT(p, off, n *Term) *Term {
	return e.b.mk(Term{op: "slice", kind: 'o', args: []*Term{p, off, n}})
}

// toSlice gives symbolic slices their array object.
func (e *Eng) toSlice(t *Term, elem types.Type) *Term {
	switch t.op {
	case "ite":
		return e.b.ite(t.args[0], e.toSlice(t.args[1], elem), e.toSlice(t.args[2], elem))
	case "slice", "nil":
		return t
	}
	o := e.symObj(t, 'a', elem)
	return e.sliceT(e.ptr(o), e.b.int(0), e.b.seqLen(o.init))
}

func (e *Eng) seqOf(st *State, t *Term, elem types.Type) *Term {
	if t.kind == 's' {
		return t
	}
	switch t.op {
	case "ite":
		return e.b.ite(t.args[0], e.seqOf(st, t.args[1], elem), e.seqOf(st, t.args[2], elem))
	case "nil":
		return e.b.str("")
	case "slice":
		c := e.load(st, t.args[0])
		return e.b.slice(c, t.args[1], e.b.add(t.args[1], t.args[2]))
	}
	return e.seqOf(st, e.toSlice(t, elem), elem)
}

func (e *Eng) lenOf(st *State, t *Term) *Term {
	if t.kind == 's' {
		return e.b.seqLen(t)
	}
	switch t.op {
	case "ite":
		return e.b.ite(t.args[0], e.lenOf(st, t.args[1]), e.lenOf(st, t.args[2]))
	case "nil":
		return e.b.int(0)
	case "slice":
		return t.args[2]
	}
	return e.b.seqLen(e.b.elems(t))
}

// ---- maps

func (e *Eng) toMap(t *Term, mt *types.Map) *Term {
	switch t.op {
	case "ite":
		return e.b.ite(t.args[0], e.toMap(t.args[1], mt), e.toMap(t.args[2], mt))
	case "ptr", "nil":
		return t
	}
	return e.ptr(e.symObj(t, 'm', mt))
}

func (e *Eng) mapContent(st *State, t *Term, mt *types.Map) *Term {
	p := e.toMap(t, mt)
	return e.b.mapIte(p, func(l *Term) *Term {
		if l.isNil() {
			return e.b.appK("mempty", 'o')
		}
		return e.load(st, l)
	})
}

// ---- heap independent description of a value

type boxer struct {
	e     *Eng
	st    *State
	busy  map[*Obj]bool
	memo  map[*Term]*Term
	fresh int // >=0: only objects with id >= fresh and no key are boxed
}

func (e *Eng) box(st *State, t *Term) *Term {
	bx := &boxer{e: e, st: st, busy: map[*Obj]bool{}, memo: map[*Term]*Term{}, fresh: -1}
	return bx.w(t)
}

func (e *Eng) boxFresh(st *State, t *Term, mark int) *Term {
	bx := &boxer{e: e, st: st, busy: map[*Obj]bool{}, memo: map[*Term]*Term{}, fresh: mark}
	return bx.w(t)
}

func (x *boxer) skip(o *Obj) bool {
	return x.fresh >= 0 && (o.id < x.fresh || o.key != nil)
}

func (x *boxer) w(t *Term) *Term {
	if r, ok := x.memo[t]; ok {
		return r
	}
	e, b := x.e, x.e.b
	var r *Term
	switch t.op {
	case "ptr":
		o := t.aux.(*Obj)
		if x.skip(o) {
			r = t
			break
		}
		if x.busy[o] {
			return b.appK("cyc", 'o')
		}
		c := e.content(x.st, o)
		if o.kind == 'r' {
			k := t.args[0].args[0]
			v := b.rget(c, k, o.typ)
			bk := x.w(k)
			if v == b.deref(k, o.typ) {
				r = bk
				if len(t.args) > 1 {
					as := []*Term{bk}
					for _, a := range t.args[1:] {
						as = append(as, x.w(a))
					}
					r = b.appK("addr", 'o', as...)
				}
				break
			}
			v, _ = e.getPath(v, o.typ, t.args[1:])
			r = b.appK("ref", 'o', x.w(v))
			break
		}
		if o.key != nil && c == o.init {
			if len(t.args) == 0 {
				r = o.key
				break
			}
			as := []*Term{o.key}
			for _, a := range t.args {
				as = append(as, x.w(a))
			}
			r = b.appK("addr", 'o', as...)
			break
		}
		x.busy[o] = true
		if o.kind == 'm' {
			r = b.appK("mp", 'o', x.w(c))
		} else {
			v, _ := e.getPath(c, o.ctype(), t.args)
			r = b.appK("ref", 'o', x.w(v))
		}
		delete(x.busy, o)
	case "slice":
		p := t.args[0]
		done := false
		if p.op == "ptr" {
			o := p.aux.(*Obj)
			if x.skip(o) {
				r = t
				break
			}
			c := e.content(x.st, o)
			if o.key != nil && c == o.init && len(p.args) == 0 && t.args[2] == b.seqLen(o.init) {
				r = o.key
				done = true
			}
			if x.busy[o] {
				return b.appK("cyc", 'o')
			}
		}
		if !done {
			r = b.appK("sl", 'o', x.w(e.seqOf(x.st, t, nil)))
		}
	case "clo":
		f := t.aux.(*ssa.Function)
		if g := e.opts.alias[f]; g != nil {
			f = g
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = x.w(a)
		}
		r = b.mk(Term{op: "app", kind: 'o', s: "clo:" + f.RelString(nil), args: as, aux: f})
	default:
		if len(t.args) == 0 {
			r = t
			break
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = x.w(a)
			if args[i] != a {
				ch = true
			}
		}
		r = t
		if ch {
			if isBinder(t.op) {
				r = b.mk(Term{op: t.op, kind: t.kind, s: t.s, args: args, lvl: t.lvl})
				if r.typ == nil {
					r.typ = t.typ
				}
			} else {
				r = b.rebuild(t, args)
			}
		}
	}
	x.memo[t] = r
	return r
}

// ---- functions

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type retv struct {
	st   *State
	vals []*Term
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	inst ssa.Instruction
}

type frame struct {
	e      *Eng
	fn     *ssa.Function
	regs   map[ssa.Value]*Term
	free   []*Term
	defers []deferred
	rets   []retv
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	facts  int
}

func rpoOf(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock)
	w = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			w(b.Succs[i])
		}
		out = append(out, b)
	}
	w(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range rpoOf(fn) {
		pos[b] = i
	}
	for _, t := range fn.Blocks {
		if _, ok := pos[t]; !ok {
			continue
		}
		for _, h := range t.Succs {
			if !h.Dominates(t) {
				if pos[h] <= pos[t] {
					giveUp("irreducible control flow in %s", fname(fn))
				}
				continue
			}
			l := out[h]
			if l == nil {
				l = map[*ssa.BasicBlock]bool{h: true}
				out[h] = l
			}
			st := []*ssa.BasicBlock{t}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l[x] {
					continue
				}
				l[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	return out
}

// call summarises a call in place; st is updated. alive is false when no normal return remains.
func (e *Eng) inline(fn *ssa.Function, args, free []*Term, st *State) (res *Term, alive bool) {
	for _, f := range e.stack {
		if f == fn {
			giveUp("recursion through %s", fname(fn))
		}
	}
	if len(e.stack) > 60 {
		giveUp("call depth")
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.inlined[fn] = true
	fr := &frame{e: e, fn: fn, regs: map[ssa.Value]*Term{}, free: free, rpo: rpoOf(fn), loops: naturalLoops(fn)}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	s := st.clone()
	s.over = nil
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	fr.region(all, nil, []edge{{nil, fn.Blocks[0], s}})
	var live []retv
	for _, r := range fr.rets {
		if !r.st.pc.isFalse() {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		return nil, false
	}
	sts := make([]*State, len(live))
	for i := range live {
		sts[i] = live[i].st
	}
	m, sel := e.mergeStates(sts)
	n := fn.Signature.Results().Len()
	vals := make([]*Term, n)
	for i := range vals {
		vs := make([]*Term, len(live))
		for j := range live {
			vs[j] = live[j].vals[i]
		}
		vals[i] = e.b.restrict(e.mergeVals(sel, vs), m.pc)
	}
	st.heap, st.pc = m.heap, m.pc
	switch n {
	case 0:
		return nil, true
	case 1:
		return vals[0], true
	}
	return e.b.tuple(vals), true
}

// mergeStates joins states; sel[i] selects state i.
func (e *Eng) mergeStates(sts []*State) (*State, []*Term) {
	b := e.b
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{b.T()}
	}
	total := b.F()
	for _, s := range sts {
		total = b.or(total, s.pc)
	}
	sel := make([]*Term, len(sts))
	for i, s := range sts {
		sel[i] = b.restrict(s.pc, total)
	}
	out := &State{heap: map[*Obj]*Term{}, pc: total}
	keys := map[*Obj]bool{}
	for _, s := range sts {
		for o := range s.heap {
			keys[o] = true
		}
	}
	var ks []*Obj
	for o := range keys {
		ks = append(ks, o)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, o := range ks {
		var vs, ss []*Term
		for i, s := range sts {
			if o.local {
				if _, ok := s.heap[o]; !ok {
					continue
				}
			}
			vs = append(vs, e.content(s, o))
			ss = append(ss, sel[i])
		}
		out.heap[o] = e.mergeVals(ss, vs)
	}
	for _, s := range sts {
		for v := range s.over {
			if out.over == nil {
				out.over = map[ssa.Value]*Term{}
			}
			if _, ok := out.over[v]; ok {
				continue
			}
			var vs, ss []*Term
			for i, s2 := range sts {
				if x, ok := s2.over[v]; ok {
					vs = append(vs, x)
					ss = append(ss, sel[i])
				}
			}
			out.over[v] = e.mergeVals(ss, vs)
		}
	}
	return out, sel
}

func (e *Eng) mergeVals(sel, vs []*Term) *Term {
	same := true
	for _, v := range vs[1:] {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = e.b.ite(sel[i], vs[i], r)
	}
	return r
}

// region evaluates the blocks of a set from the entry edges on; edges leaving the set or going to header are returned.
func (fr *frame) region(set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in []edge) (exits, backs []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	for _, x := range in {
		pending[x.to] = append(pending[x.to], x)
	}
	entry := in[0].to
	done := map[*ssa.BasicBlock]bool{}
	send := func(x edge) {
		switch {
		case x.to == header:
			backs = append(backs, x)
		case !set[x.to]:
			exits = append(exits, x)
		default:
			if done[x.to] {
				giveUp("block order in %s", fname(fr.fn))
			}
			pending[x.to] = append(pending[x.to], x)
		}
	}
	for _, blk := range fr.rpo {
		if !set[blk] || done[blk] {
			continue
		}
		ins := pending[blk]
		if l, ok := fr.loops[blk]; ok && !(blk == header && blk == entry) {
			for x := range l {
				done[x] = true
			}
			if len(ins) == 0 {
				continue
			}
			for _, x := range fr.loop(blk, l, ins) {
				send(x)
			}
			continue
		}
		done[blk] = true
		if len(ins) == 0 {
			continue
		}
		for _, x := range fr.block(blk, ins, blk == header) {
			send(x)
		}
	}
	return
}

func (fr *frame) set(st *State, v ssa.Value, t *Term) {
	if st.over != nil {
		delete(st.over, v)
	}
	fr.regs[v] = t
}

func (fr *frame) merge(ins []edge) (*State, []*Term, []edge) {
	var live []edge
	for _, x := range ins {
		if !x.st.pc.isFalse() {
			live = append(live, x)
		}
	}
	if len(live) == 0 {
		return nil, nil, nil
	}
	sts := make([]*State, len(live))
	for i := range live {
		sts[i] = live[i].st
	}
	st, sel := fr.e.mergeStates(sts)
	return st, sel, live
}

func predIndex(from, to *ssa.BasicBlock, used map[int]bool) int {
	for i, p := range to.Preds {
		if p == from && !used[i] {
			return i
		}
	}
	return -1
}

// phiVals: values of the phis of block to, joined over the incoming edges.
func (fr *frame) phiVals(to *ssa.BasicBlock, sel []*Term, live []edge) map[*ssa.Phi]*Term {
	out := map[*ssa.Phi]*Term{}
	used := map[int]bool{}
	var idx []int
	for _, x := range live {
		i := predIndex(x.from, to, used)
		if i < 0 {
			i = predIndex(x.from, to, map[int]bool{})
		} else {
			used[i] = true
		}
		idx = append(idx, i)
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]*Term, len(live))
		for j, x := range live {
			vs[j] = fr.val(x.st, ph.Edges[idx[j]])
		}
		out[ph] = fr.e.mergeVals(sel, vs)
	}
	return out
}

func (fr *frame) block(blk *ssa.BasicBlock, ins []edge, phisSet bool) []edge {
	st, sel, live := fr.merge(ins)
	if st == nil {
		return nil
	}
	if !phisSet {
		for ph, v := range fr.phiVals(blk, sel, live) {
			fr.set(st, ph, v)
		}
	}
	return fr.body(blk, st)
}

func (fr *frame) body(blk *ssa.BasicBlock, st *State) []edge {
	e, b := fr.e, fr.e.b
	old := b.facts
	b.facts = append(append([]*Term{}, old...), e.factsOf(st.pc)...)
	defer func() { b.facts = old }()
	for _, in := range blk.Instrs {
		e.steps++
		if e.steps > 3000000 {
			giveUp("too many steps")
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []edge{{blk, blk.Succs[0], st}}
		case *ssa.If:
			c := b.restrict(fr.val(st, x.Cond), st.pc)
			var out []edge
			if !c.isFalse() {
				s := st.clone()
				s.pc = b.and(st.pc, c)
				if !s.pc.isFalse() {
					out = append(out, edge{blk, blk.Succs[0], s})
				}
			}
			if !c.isTrue() {
				s := st.clone()
				s.pc = b.and(st.pc, b.not(c))
				if !s.pc.isFalse() {
					out = append(out, edge{blk, blk.Succs[1], s})
				}
			}
			return out
		case *ssa.Return:
			vals := make([]*Term, len(x.Results))
			for i, r := range x.Results {
				vals[i] = b.restrict(fr.val(st, r), st.pc)
			}
			fr.ret(st, vals)
			return nil
		case *ssa.Panic:
			return nil
		default:
			if !fr.instr(st, in) {
				return nil
			}
		}
	}
	return nil
}

// factsOf: linear facts implied by a path condition.
func (e *Eng) factsOf(pc *Term) []*Term {
	b := e.b
	var out []*Term
	var ats []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t.op == "bool" || seen[t] || len(seen) > 200 {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			ats = append(ats, t.args[0])
			w(t.args[1])
			w(t.args[2])
		} else {
			ats = append(ats, t)
		}
	}
	w(pc)
	done := map[*Term]bool{}
	for _, a := range ats {
		if done[a] || !(a.isApp("ge0") || a.isApp("eq0")) {
			continue
		}
		done[a] = true
		if b.implies(pc, a) {
			if a.s == "ge0" {
				out = append(out, a.args[0])
			} else {
				out = append(out, a.args[0], b.neg(a.args[0]))
			}
		} else if a.s == "ge0" && b.implies(pc, b.not(a)) {
			out = append(out, b.sub(b.neg(a.args[0]), b.int(1)))
		}
	}
	if len(out) > 10 {
		out = out[len(out)-10:]
	}
	return out
}

// okCond: condition under which an error value is not a failure.
func (e *Eng) okCond(t *Term, top bool) *Term {
	b := e.b
	switch t.op {
	case "ite":
		return b.ite(t.args[0], e.okCond(t.args[1], top), e.okCond(t.args[2], top))
	case "nil":
		return b.T()
	case "sym":
		if strings.HasPrefix(t.s, "global error ") {
			return b.bool(!top && e.kept[strings.TrimPrefix(t.s, "global error ")])
		}
	case "iface":
		return b.F()
	case "app":
		if t.s == "error" || strings.HasPrefix(t.s, "nonnil:") {
			return b.F()
		}
	}
	return b.appK("isnil", 'b', t)
}

func (fr *frame) ret(st *State, vals []*Term) {
	e := fr.e
	res := fr.fn.Signature.Results()
	if n := res.Len(); n > 0 && isErrorT(res.At(n-1).Type()) {
		c := e.okCond(vals[n-1], len(e.stack) == 1 && !e.opts.keepErr)
		if e.opts.keepErr {
			if !c.isTrue() {
				vals[n-1] = e.b.ite(c, vals[n-1], e.b.appK("error", 'o'))
				for i := 0; i < n-1; i++ {
					_ = i
				}
			}
		} else {
			st.pc = e.b.and(st.pc, c)
			if st.pc.isFalse() {
				return
			}
			for i := range vals {
				vals[i] = e.b.restrict(vals[i], st.pc)
			}
		}
	}
	fr.rets = append(fr.rets, retv{st, vals})
}

func (fr *frame) val(st *State, v ssa.Value) *Term {
	e, b := fr.e, fr.e.b
	if st.over != nil {
		if t, ok := st.over[v]; ok {
			return t
		}
	}
	if t, ok := fr.regs[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Function:
		return b.mk(Term{op: "clo", kind: 'o', aux: x})
	case *ssa.Global:
		return e.ptr(e.global(x))
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return b.symK("builtin "+x.Name(), 'o')
	}
	giveUp("value %s of %s is not available", v.Name(), fname(fr.fn))
	return nil
}

func (e *Eng) constTerm(c *ssa.Const) *Term {
	b := e.b
	if c.Value == nil {
		return zeroTerm(b, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return b.bool(constant.BoolVal(c.Value))
	case constant.String:
		return b.str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		s := c.Value.ExactString()
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			giveUp("constant %s", s)
		}
		if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			// the decimal notation that was meant, if it is short
			if f, _ := constant.Float64Val(c.Value); true {
				if r2, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok {
					r = r2
				}
			}
		}
		return b.num(r)
	}
	giveUp("constant %s", c)
	return nil
}

func (e *Eng) global(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := e.newObj('v', g.String(), t, nil)
	e.globals[g] = o
	if isErrorT(t) {
		o.init = e.b.symK("global error "+g.String(), 'o')
		return o
	}
	o.init = e.b.sym("global "+g.String(), t)
	if g.Pkg != nil && e.p.isLibPkg(g.Pkg.Pkg) {
		if v := e.globalInit(g, o); v != nil {
			o.init = v
		} else {
			o.init = zeroTerm(e.b, t)
		}
	}
	return o
}

// globalInit: the value the package initialiser gives a variable (evaluated backwards from the stores to it).
func (e *Eng) globalInit(g *ssa.Global, o *Obj) *Term {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	fr := &frame{e: e, fn: init, regs: map[ssa.Value]*Term{}}
	st := &State{heap: e.heap0, pc: e.b.T()}
	var need map[ssa.Value]bool
	mark := func(v ssa.Value) {}
	// collect the instructions that contribute to g (backward slice inside init)
	need = map[ssa.Value]bool{}
	mark = func(v ssa.Value) {
		if need[v] {
			return
		}
		need[v] = true
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					mark(*op)
				}
			}
		}
	}
	root := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return v
			}
		}
	}
	var ins []ssa.Instruction
	for _, b := range init.Blocks {
		ins = append(ins, b.Instrs...)
	}
	found := false
	for ch := true; ch; {
		ch = false
		for _, in := range ins {
			switch x := in.(type) {
			case *ssa.Store:
				r := root(x.Addr)
				if r == ssa.Value(g) || need[r] {
					if r == ssa.Value(g) {
						found = true
					}
					if !need[x.Val] || !need[x.Addr] {
						mark(x.Val)
						mark(x.Addr)
						ch = true
					}
				}
			case *ssa.MapUpdate:
				if need[x.Map] && (!need[x.Key] || !need[x.Value]) {
					mark(x.Key)
					mark(x.Value)
					ch = true
				}
			}
		}
	}
	if !found {
		return nil
	}
	if len(need) > 20000 {
		giveUp("initial value of %s too large", g)
	}
	o.init = zeroTerm(e.b, o.typ)
	for _, in := range ins {
		switch x := in.(type) {
		case *ssa.Store:
			r := root(x.Addr)
			if r == ssa.Value(g) || need[r] {
				e.store(st, fr.val(st, x.Addr), fr.val(st, x.Val))
			}
		case *ssa.MapUpdate:
			if need[x.Map] {
				fr.instr(st, in)
			}
		case ssa.Value:
			if need[x] {
				if _, isG := x.(*ssa.Global); !isG {
					fr.instr(st, in)
				}
			}
		}
	}
	return e.content(st, o)
}

// ---- instructions

func (fr *frame) instr(st *State, in ssa.Instruction) bool {
	e, b := fr.e, fr.e.b
	v := func(x ssa.Value) *Term { return fr.val(st, x) }
	put := func(x ssa.Value, t *Term) bool {
		if t == nil {
			giveUp("no value for %s in %s", x, fname(fr.fn))
		}
		fr.set(st, x, t)
		return true
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		nm := x.Comment
		if nm == "" {
			nm = x.Name()
		}
		return put(x, e.ptr(e.newObj('v', nm, t, zeroTerm(b, t))))
	case *ssa.BinOp:
		return put(x, fr.binop(x.Op, v(x.X), v(x.Y), x.X.Type(), x.Y.Type(), x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := e.toPtr(v(x.X), x.Type())
			if p.isNil() {
				return false
			}
			return put(x, b.restrict(e.load(st, b.restrict(p, st.pc)), st.pc))
		case token.NOT:
			return put(x, b.not(v(x.X)))
		case token.SUB:
			return put(x, e.wrap(b.neg(v(x.X)), x.Type()))
		case token.XOR:
			// ^x = -x-1
			return put(x, e.wrap(b.sub(b.neg(v(x.X)), b.int(1)), x.Type()))
		}
		giveUp("operator %s", x.Op)
	case *ssa.ChangeType:
		return put(x, v(x.X))
	case *ssa.ChangeInterface:
		return put(x, v(x.X))
	case *ssa.Convert:
		return put(x, fr.convert(st, v(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		return put(x, b.mapIte(v(x.X), func(l *Term) *Term { return b.iface(e.tkey(x.X.Type()), x.X.Type(), l) }))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, y := range x.Bindings {
			bs = append(bs, v(y))
		}
		return put(x, b.mk(Term{op: "clo", kind: 'o', aux: x.Fn.(*ssa.Function), args: bs}))
	case *ssa.MakeMap:
		return put(x, e.ptr(e.newObj('m', "map", x.Type().Underlying(), b.appK("mempty", 'o'))))
	case *ssa.MakeSlice:
		et := elemType(x.Type())
		k := b.freshSym("κz", types.Typ[types.Int])
		z := zeroTerm(b, et)
		u := b.unit(z)
		if isByteT(et) {
			u = b.byteUnit(z)
		}
		return put(x, e.mkSlice(b.star(v(x.Len), u, k), et))
	case *ssa.Extract:
		t := v(x.Tuple)
		return put(x, b.mapIte(t, func(l *Term) *Term {
			if l.op == "tuple" {
				return l.args[x.Index]
			}
			giveUp("tuple %s", l.show(10))
			return nil
		}))
	case *ssa.Field:
		return put(x, e.fieldOf(v(x.X), x.X.Type(), x.Field))
	case *ssa.FieldAddr:
		el := x.X.Type().Underlying().(*types.Pointer).Elem()
		p := e.toPtr(v(x.X), el)
		if p.isNil() {
			return false
		}
		return put(x, e.ext(e.dropNil(p), e.fld(x.Field)))
	case *ssa.Index:
		return put(x, b.idx(v(x.X), v(x.Index), elemType(x.X.Type())))
	case *ssa.IndexAddr:
		i := v(x.Index)
		t := v(x.X)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer:
			p := e.toPtr(t, u.Elem())
			if p.isNil() {
				return false
			}
			return put(x, e.ext(e.dropNil(p), e.at(i)))
		case *types.Slice:
			s := e.dropNil(e.toSlice(t, u.Elem()))
			if s.isNil() {
				return false
			}
			return put(x, b.mapIte(s, func(l *Term) *Term {
				return e.ext(l.args[0], e.at(b.add(l.args[1], i)))
			}))
		}
		giveUp("index of %s", x.X.Type())
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := e.mapContent(st, v(x.X), mt)
			k := e.mapKey(st, v(x.Index))
			val := b.mget(m, k, mt.Elem())
			if x.CommaOk {
				return put(x, b.tuple([]*Term{b.restrict(val, st.pc), b.restrict(b.mhas(m, k), st.pc)}))
			}
			return put(x, val)
		}
		return put(x, b.idx(v(x.X), v(x.Index), types.Typ[types.Uint8]))
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		p := e.dropNil(e.toMap(v(x.Map), mt))
		if p.isNil() {
			return false
		}
		k, val := e.mapKey(st, v(x.Key)), v(x.Value)
		var upd func(p, c *Term)
		upd = func(p, c *Term) {
			switch {
			case p.op == "ite":
				upd(p.args[1], b.and(c, p.args[0]))
				upd(p.args[2], b.and(c, b.not(p.args[0])))
			case p.op == "ptr":
				old := e.load(st, p)
				nv := b.mapIte(old, func(l *Term) *Term { return b.mput(l, k, val) })
				e.store(st, p, b.ite(c, nv, old))
			case p.isNil():
			default:
				giveUp("update of map %s", p.show(6))
			}
		}
		upd(p, b.T())
		return true
	case *ssa.Store:
		p := e.toPtr(v(x.Addr), x.Val.Type())
		p = e.dropNil(b.restrict(p, st.pc))
		if p.isNil() {
			return false
		}
		e.store(st, p, v(x.Val))
		return true
	case *ssa.Slice:
		return put(x, fr.sliceOp(st, x))
	case *ssa.Range:
		o := e.newObj('i', "iter", types.Typ[types.Int], b.int(0))
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := e.mapContent(st, v(x.X), mt)
			o.aux = m
			o.base = b.app("keys", types.NewArray(mt.Key(), 0), m)
			o.typ = types.Typ[types.Int]
		} else {
			o.aux = v(x.X)
			o.base = b.app("runes", types.NewArray(types.Typ[types.Rune], 0), v(x.X))
		}
		return put(x, e.ptr(o))
	case *ssa.Next:
		p := v(x.Iter)
		o := p.aux.(*Obj)
		pos := e.content(st, o)
		n := b.seqLen(o.base)
		ok := b.ge0(b.sub(b.sub(n, pos), b.int(1)))
		st.heap[o] = b.add(pos, b.int(1))
		tt := x.Type().(*types.Tuple)
		if x.IsString {
			return put(x, b.tuple([]*Term{ok, b.runepos(o.aux, pos), b.idx(o.base, pos, types.Typ[types.Rune])}))
		}
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		k := b.idx(o.base, pos, mt.Key())
		_ = tt
		return put(x, b.tuple([]*Term{ok, k, b.mget(o.aux, k, mt.Elem())}))
	case *ssa.TypeAssert:
		return fr.typeAssert(st, x)
	case *ssa.Call:
		t, alive := fr.call(st, x.Common(), x)
		if !alive {
			return false
		}
		if t != nil {
			fr.set(st, x, b.restrict(t, st.pc))
		}
		return true
	case *ssa.Defer:
		d := deferred{call: x.Common(), inst: x}
		if !x.Common().IsInvoke() {
			if _, isB := x.Common().Value.(*ssa.Builtin); !isB {
				d.fn = v(x.Common().Value)
			}
		} else {
			d.fn = v(x.Common().Value)
		}
		for _, a := range x.Common().Args {
			d.args = append(d.args, v(a))
		}
		fr.defers = append(fr.defers, d)
		return true
	case *ssa.RunDefers:
		// deferred calls are assumed to have been registered on every path that gets here
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if !d.inst.Block().Dominates(in.Block()) {
				continue
			}
			if _, alive := fr.callWith(st, d.call, d.fn, d.args, d.inst); !alive {
				return false
			}
		}
		return true
	}
	giveUp("instruction %T in %s", in, fname(fr.fn))
	return false
}

func (e *Eng) mapKey(st *State, k *Term) *Term { return e.box(st, k) }

func (e *Eng) dropNil(p *Term) *Term {
	if p.op != "ite" {
		return p
	}
	x, y := e.dropNil(p.args[1]), e.dropNil(p.args[2])
	if x.isNil() {
		return y
	}
	if y.isNil() {
		return x
	}
	return e.b.ite(p.args[0], x, y)
}

func (e *Eng) wrap(t *Term, typ types.Type) *Term {
	if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		return e.b.convInt(t, bt)
	}
	return t
}

func isFloatT(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsFloat != 0
}

func (fr *frame) binop(op token.Token, x, y *Term, xt, yt, rt types.Type) *Term {
	e, b := fr.e, fr.e.b
	isStr := kindOf(xt) == 's'
	switch op {
	case token.ADD:
		if isStr {
			return b.cat(x, y)
		}
		return e.wrap(b.add(x, y), rt)
	case token.SUB:
		return e.wrap(b.sub(x, y), rt)
	case token.MUL:
		return e.wrap(b.mul(x, y), rt)
	case token.QUO:
		if isFloatT(rt) {
			return b.fdiv(x, y)
		}
		if n, ok := y.intVal(); ok && unsignedT(rt) && n > 0 && n&(n-1) == 0 {
			return b.shr(x, b.int(int64(bits.TrailingZeros64(uint64(n)))))
		}
		return b.idiv(x, y)
	case token.REM:
		if n, ok := y.intVal(); ok && unsignedT(rt) && n > 0 {
			return b.modT(x, y)
		}
		return b.irem(x, y)
	case token.AND:
		return b.bitAnd(x, y)
	case token.OR:
		return b.bitOr(x, y)
	case token.XOR:
		return b.bitXor(x, y)
	case token.AND_NOT:
		if yi, ok := y.intVal(); ok {
			if bt, ok := rt.Underlying().(*types.Basic); ok {
				if bits, _, ok := intBits(bt); ok && bits < 64 {
					return b.bitAnd(x, b.int((^yi)&(1<<uint(bits)-1)))
				}
			}
			return b.bitAnd(x, b.int(^yi))
		}
		return b.appK("andnot", 'n', x, y)
	case token.SHL:
		return b.shl(x, y, rt.Underlying().(*types.Basic))
	case token.SHR:
		return b.shr(x, y)
	case token.EQL, token.NEQ:
		r := e.equal(x, y, xt, yt)
		if op == token.NEQ {
			return b.not(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			x, y = y, x
		}
		// x < y or, for LEQ (swapped: y<=x ... ) x >= y
		var lt *Term
		switch {
		case isStr:
			lt = b.lift2(x, y, func(x, y *Term) *Term {
				if x.isStr() && y.isStr() {
					return b.bool(x.s < y.s)
				}
				return b.appK("strlt", 'b', x, y)
			})
		case isFloatT(xt):
			lt = b.lt0(b.sub(x, y))
		default:
			lt = b.ge0(b.sub(b.sub(y, x), b.int(1)))
		}
		if op == token.LSS || op == token.GTR {
			return lt
		}
		return b.not(lt)
	}
	giveUp("operator %s", op)
	return nil
}

func (e *Eng) equal(x, y *Term, xt, yt types.Type) *Term {
	b := e.b
	if _, ok := xt.Underlying().(*types.Slice); ok {
		// comparison with nil
		if x.isNil() {
			x, y = y, x
		}
		if y.isNil() {
			return b.mapIte(x, func(l *Term) *Term {
				if l.isNil() {
					return b.T()
				}
				if l.op == "slice" {
					p := l.args[0]
					if p.op == "ptr" {
						o := p.aux.(*Obj)
						if o.key != nil {
							return b.eq(o.key, b.nil_())
						}
						if strings.HasPrefix(o.name, "λ") {
							return b.eq(l.args[2], b.int(0))
						}
					}
					return b.F()
				}
				return b.eq(l, y)
			})
		}
	}
	return b.eq(e.symPtr(x), e.symPtr(y))
}

// symPtr: pointers to objects that existed before as the term they are known by.
func (e *Eng) symPtr(t *Term) *Term {
	return e.b.mapIte(t, func(l *Term) *Term {
		if l.op == "ptr" && len(l.args) == 0 {
			if k := l.aux.(*Obj).key; k != nil {
				return k
			}
		}
		return l
	})
}

func (fr *frame) convert(st *State, x *Term, from, to types.Type) *Term {
	e, b := fr.e, fr.e.b
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	fs, _ := fu.(*types.Slice)
	ts, _ := tu.(*types.Slice)
	switch {
	case fb != nil && tb != nil:
		fi, ti := fb.Info(), tb.Info()
		switch {
		case ti&types.IsString != 0 && fi&types.IsInteger != 0:
			return b.runeStr(x)
		case ti&types.IsString != 0 && fi&types.IsString != 0:
			return x
		case ti&types.IsInteger != 0 && fi&types.IsInteger != 0:
			return b.convInt(x, tb)
		case ti&types.IsFloat != 0:
			return x
		case ti&types.IsInteger != 0 && fi&types.IsFloat != 0:
			return b.trunc(x, to)
		}
	case fb != nil && fb.Info()&types.IsString != 0 && ts != nil:
		if isByteT(ts.Elem()) {
			return e.mkSlice(x, ts.Elem())
		}
		return e.mkSlice(b.app("runes", types.NewArray(types.Typ[types.Rune], 0), x), ts.Elem())
	case fs != nil && tb != nil && tb.Info()&types.IsString != 0:
		s := e.seqOf(st, x, fs.Elem())
		if isByteT(fs.Elem()) {
			return s
		}
		return b.runesStr(s)
	}
	if types.Identical(fu, tu) {
		return x
	}
	giveUp("conversion from %s to %s", from, to)
	return nil
}

func (fr *frame) sliceOp(st *State, x *ssa.Slice) *Term {
	e, b := fr.e, fr.e.b
	t := fr.val(st, x.X)
	lo := b.int(0)
	if x.Low != nil {
		lo = fr.val(st, x.Low)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		hi := b.seqLen(t)
		if x.High != nil {
			hi = fr.val(st, x.High)
		}
		return b.slice(t, lo, hi)
	case *types.Pointer:
		p := e.dropNil(e.toPtr(t, u.Elem()))
		hi := b.int(u.Elem().Underlying().(*types.Array).Len())
		if x.High != nil {
			hi = fr.val(st, x.High)
		}
		return b.mapIte(p, func(l *Term) *Term { return e.sliceT(l, lo, b.sub(hi, lo)) })
	case *types.Slice:
		s := e.toSlice(t, u.Elem())
		return b.mapIte(s, func(l *Term) *Term {
			if l.isNil() {
				return l
			}
			hi := l.args[2]
			if x.High != nil {
				hi = fr.val(st, x.High)
			}
			return e.sliceT(l.args[0], b.add(l.args[1], lo), b.sub(hi, lo))
		})
	}
	giveUp("slice of %s", x.X.Type())
	return nil
}

func (fr *frame) typeAssert(st *State, x *ssa.TypeAssert) bool {
	e, b := fr.e, fr.e.b
	t := fr.val(st, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	k := e.tkey(x.AssertedType)
	name := types.TypeString(x.AssertedType, nil)
	okOf := func(l *Term) *Term {
		switch l.op {
		case "nil":
			return b.F()
		case "iface":
			if toIface {
				return b.bool(types.Implements(l.typ, x.AssertedType.Underlying().(*types.Interface)))
			}
			return b.bool(l.aux == any(k))
		}
		return b.appK("is:"+name, 'b', l)
	}
	valOf := func(l *Term) *Term {
		if l.op == "iface" {
			if toIface {
				return l
			}
			if l.aux == any(k) {
				return l.args[0]
			}
			return zeroTerm(b, x.AssertedType)
		}
		if l.isNil() {
			return zeroTerm(b, x.AssertedType)
		}
		if toIface {
			return l
		}
		return b.app("as:"+name, x.AssertedType, l)
	}
	ok := b.mapIte(t, okOf)
	val := b.mapIte(t, valOf)
	if x.CommaOk {
		if !toIface {
			val = b.ite(ok, val, zeroTerm(b, x.AssertedType))
		}
		fr.set(st, x, b.tuple([]*Term{b.restrict(val, st.pc), b.restrict(ok, st.pc)}))
		return true
	}
	st.pc = b.and(st.pc, ok)
	if st.pc.isFalse() {
		return false
	}
	fr.set(st, x, b.restrict(val, st.pc))
	return true
}

func unsignedT(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsUnsigned != 0
}
