package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A loop is evaluated once for an arbitrary iteration κ with unknown values λ for everything it changes; the recurrences
// found for the λ are then solved into closed forms in κ (or folds), and the exits are evaluated at the trip count.

type lvar struct {
	phi   *ssa.Phi
	obj   *Obj
	path  []*Term
	sym   *Term
	init  *Term
	next  *Term
	sol   *Term
	typ   types.Type
	slice bool // the variable is a slice; the symbol stands for its elements
	aobj  *Obj // its array object
}

type lshape struct {
	v  *lvar
	fs []*lshape // struct fields
	ty types.Type
	nm string // buf
}

// shape builds the unknown value for a location of type t.
func (fr *frame) shape(st *State, t types.Type, init *Term, name string, out *[]*lvar) (*lshape, *Term) {
	e, b := fr.e, fr.e.b
	if s := structOf(t); s != nil {
		if isRdrT(t) {
			sh := &lshape{ty: t, nm: "rdr"}
			b.fresh++
			q := &lvar{sym: b.symK(fmt.Sprintf("λ%s'%d", name, b.fresh), 's'), init: b.rdrPart(init, 0)}
			p := &lvar{sym: b.freshSym("λ"+name, types.Typ[types.Int]), init: b.rdrPart(init, 1), typ: types.Typ[types.Int]}
			*out = append(*out, q, p)
			sh.fs = []*lshape{{v: q}, {v: p, ty: p.typ}}
			return sh, b.rdrVal(t, q.sym, p.sym)
		}
		if opaqueStruct(e.p, t) && !isBufT(t) {
			v := &lvar{sym: b.freshSym("λ"+name, t), init: init, typ: t}
			*out = append(*out, v)
			return &lshape{v: v, ty: t}, v.sym
		}
		if isBufT(t) {
			b.fresh++
			v := &lvar{sym: b.symK(fmt.Sprintf("λ%s'%d", name, b.fresh), 's'), init: b.bufseq(init)}
			*out = append(*out, v)
			return &lshape{v: v, ty: t, nm: "buf"}, b.mkStruct("buf", t, []*Term{v.sym})
		}
		sh := &lshape{ty: t}
		var args []*Term
		for i := 0; i < s.NumFields(); i++ {
			c, val := fr.shape(st, s.Field(i).Type(), e.fieldOf(init, t, i), name+"."+s.Field(i).Name(), out)
			sh.fs = append(sh.fs, c)
			args = append(args, val)
		}
		return sh, b.mkStruct(types.TypeString(t, nil), t, args)
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		b.fresh++
		v := &lvar{slice: true, typ: sl.Elem(), sym: b.symK(fmt.Sprintf("λ%s'%d", name, b.fresh), 's'), init: e.seqOf(st, init, sl.Elem())}
		v.aobj = e.newObj('a', "λ"+name, sl.Elem(), v.sym)
		*out = append(*out, v)
		return &lshape{v: v, ty: t}, e.sliceT(e.ptr(v.aobj), b.int(0), b.seqLen(v.sym))
	}
	v := &lvar{typ: t, init: init}
	if init.kind == 's' || kindOf(t) == 's' {
		b.fresh++
		v.sym = b.symK(fmt.Sprintf("λ%s'%d", name, b.fresh), 's')
	} else {
		v.sym = b.freshSym("λ"+name, t)
	}
	*out = append(*out, v)
	return &lshape{v: v, ty: t}, v.sym
}

// opaqueStruct: a struct whose fields library code cannot see
func opaqueStruct(p *Prog, t types.Type) bool {
	s := structOf(t)
	if s == nil {
		return false
	}
	if s.NumFields() == 0 {
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() && !p.isLibPkg(f.Pkg()) {
			return true
		}
	}
	return false
}

func isRdrT(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "bytes.Reader" || s == "strings.Reader"
}

func isBufT(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

// nexts distributes a value over a shape.
func (fr *frame) nexts(st *State, sh *lshape, val *Term) {
	e, b := fr.e, fr.e.b
	switch {
	case sh.nm == "rdr":
		sh.fs[0].v.next, sh.fs[1].v.next = b.rdrPart(val, 0), b.rdrPart(val, 1)
	case sh.fs != nil:
		for i, c := range sh.fs {
			fr.nexts(st, c, e.fieldOf(val, sh.ty, i))
		}
	case sh.v == nil:
	case sh.nm == "buf":
		sh.v.next = b.bufseq(val)
	case sh.v.slice:
		sh.v.next = e.seqOf(st, val, sh.v.typ)
	default:
		sh.v.next = val
	}
}

// value of a shape with the λ replaced by given terms; slices get fresh arrays.
func (fr *frame) shapeVal(sh *lshape, f func(*lvar) *Term) *Term {
	e, b := fr.e, fr.e.b
	switch {
	case sh.nm == "rdr":
		return b.rdrVal(sh.ty, f(sh.fs[0].v), f(sh.fs[1].v))
	case sh.fs != nil:
		args := make([]*Term, len(sh.fs))
		for i, c := range sh.fs {
			args[i] = fr.shapeVal(c, f)
		}
		return b.mkStruct(types.TypeString(sh.ty, nil), sh.ty, args)
	case sh.nm == "buf":
		return b.mkStruct("buf", sh.ty, []*Term{f(sh.v)})
	case sh.v.slice:
		return e.mkSlice(f(sh.v), sh.v.typ)
	}
	return f(sh.v)
}

type hloc struct {
	obj  *Obj
	path []*Term
	sh   *lshape
	val  *Term
}

func pathKey(o *Obj, path []*Term) string {
	s := fmt.Sprint(o.id)
	for _, p := range path {
		s += "." + fmt.Sprint(p.id)
	}
	return s
}

// diffPaths finds the smallest struct fields in which two values differ.
func (fr *frame) diffPaths(t types.Type, x, y *Term, path []*Term, f func(path []*Term, t types.Type)) {
	e := fr.e
	if x == y {
		return
	}
	if s := structOf(t); s != nil && !isBufT(t) && !opaqueStruct(e.p, t) {
		for i := 0; i < s.NumFields(); i++ {
			p := append(append([]*Term{}, path...), e.fld(i))
			fr.diffPaths(s.Field(i).Type(), e.fieldOf(x, t, i), e.fieldOf(y, t, i), p, f)
		}
		return
	}
	f(path, t)
}

func (fr *frame) loop(h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool, in []edge) []edge {
	e, b := fr.e, fr.e.b
	st0, sel, live := fr.merge(in)
	if st0 == nil {
		return nil
	}
	e.loops++
	inits := fr.phiVals(h, sel, live)
	for ph := range inits {
		inits[ph] = b.restrict(inits[ph], st0.pc)
	}
	if out, ok := fr.unroll(h, L, st0, inits); ok {
		return out
	}
	mark := len(e.objs)
	k := b.freshSym("κ", types.Typ[types.Int])
	var vars []*lvar
	shapes := map[*ssa.Phi]*lshape{}
	vals := map[*ssa.Phi]*Term{}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		shapes[ph], vals[ph] = fr.shape(st0, ph.Type(), inits[ph], nm, &vars)
	}
	var locs []*hloc
	have := map[string]bool{}
	var exits, backs []edge
	var back *State
	var bsel []*Term
	ndef := len(fr.defers)
	run := func(phv map[*ssa.Phi]*Term, locs []*hloc) {
		st := st0.clone()
		for _, l := range locs {
			e.store(st, e.ptr(l.obj, l.path...), l.val)
		}
		for _, ph := range phis {
			fr.set(st, ph, phv[ph])
		}
		fr.defers = fr.defers[:ndef]
		exits, backs = fr.region(L, h, []edge{{nil, h, st}})
		if len(fr.defers) > ndef {
			giveUp("defer in a loop")
		}
		exits = fr.dropDead(exits)
		back, bsel, backs = fr.merge(backs)
	}
	for pass := 0; ; pass++ {
		if pass > 25 {
			giveUp("loop in %s does not stabilise", fname(fr.fn))
		}
		run(vals, locs)
		if back == nil {
			run(inits, nil)
			return exits
		}
		changed := false
		var os []*Obj
		for o := range back.heap {
			os = append(os, o)
		}
		sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
		hst := st0.clone()
		for _, l := range locs {
			e.store(hst, e.ptr(l.obj, l.path...), l.val)
		}
		for _, o := range os {
			if o.key == nil && o.id >= mark {
				continue
			}
			hv := e.content(hst, o)
			bv := back.heap[o]
			if hv == bv {
				continue
			}
			if o.key != nil && fr.varies(o.key, k, vars) {
				e.needRegion(o)
				giveUp("loop in %s writes through a pointer that varies: %s", fname(fr.fn), o.key.show(10))
			}
			visit := func(f func(path []*Term, t types.Type)) { fr.diffPaths(o.ctype(), hv, bv, nil, f) }
			if o.kind == 'r' {
				visit = func(f func(path []*Term, t types.Type)) { f(nil, o.init.typ) }
			}
			visit(func(path []*Term, t types.Type) {
				kk := pathKey(o, path)
				if have[kk] {
					return
				}
				have[kk] = true
				changed = true
				l := &hloc{obj: o, path: path}
				iv, _ := e.getPath(e.content(st0, o), o.ctype(), path)
				iv = b.restrict(iv, st0.pc)
				var vs []*lvar
				if o.kind == 'a' && len(path) == 0 {
					b.fresh++
					v := &lvar{sym: b.symK(fmt.Sprintf("λ%s'%d", o.name, b.fresh), 's'), init: iv}
					vs = append(vs, v)
					l.sh, l.val = &lshape{v: v, ty: t}, v.sym
				} else {
					l.sh, l.val = fr.shape(st0, t, iv, "mem", &vs)
				}
				vars = append(vars, vs...)
				locs = append(locs, l)
			})
		}
		if !changed {
			break
		}
	}
	// next values
	pv := fr.phiVals(h, bsel, backs)
	for _, ph := range phis {
		fr.nexts(back, shapes[ph], b.restrictIn(pv[ph], back.pc))
	}
	for _, l := range locs {
		v, _ := e.getPath(e.content(back, l.obj), l.obj.ctype(), l.path)
		fr.nexts(back, l.sh, b.restrictIn(v, back.pc))
	}
	for _, v := range vars {
		v.next = e.boxFresh(back, v.next, mark)
		v.init = e.boxLam(st0, v.init)
	}
	// exit conditions relative to the entry
	conds := make([]*Term, len(exits))
	for i, x := range exits {
		conds[i] = b.restrict(x.st.pc, st0.pc)
	}
	sols := fr.solve(vars, k, conds)
	for i := range conds {
		conds[i] = b.subst(conds[i], sols)
	}
	// trip count
	any := b.F()
	for _, c := range conds {
		any = b.or(any, c)
	}
	if any.isFalse() {
		return nil // never leaves
	}
	n, bound := e.tripBoundS(any, k, 0)
	var K *Term
	hit := b.T()
	if n != nil {
		rest := b.ite(bound, b.F(), any) // leaves before the bound
		rest = b.restrict(rest, b.not(bound))
		if rest.isFalse() || bound.isTrue() {
			K = n
		} else {
			K = b.first(n, rest, k)
		}
	} else if N, at := e.hitBound(any, k); N != nil {
		// it can only be left before N
		K = b.first(N, b.restrict(any, at), k)
		hit = b.ge0(b.sub(b.sub(N, K), b.int(1)))
	} else {
		K = b.first(nil, any, k)
	}
	// values defined in the loop and used outside
	outside := map[ssa.Value]bool{}
	for blk := range L {
		for _, in := range blk.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if _, ok := fr.regs[v]; !ok {
				continue
			}
			for _, r := range *v.Referrers() {
				if !L[r.Block()] {
					outside[v] = true
				}
			}
		}
	}
	var out []edge
	for i, x := range exits {
		at := K
		pc := b.and(st0.pc, hit)
		c := conds[i]
		if len(exits) > 1 {
			if n != nil && b.ite(bound, b.T(), b.not(c)).isTrue() {
				// this exit is taken only at the bound
				at = n
				if K != n {
					pc = b.and(pc, b.not(b.ge0(b.sub(b.sub(n, K), b.int(1)))))
				}
			} else {
				if n != nil && K != n {
					pc = b.and(pc, b.ge0(b.sub(b.sub(n, K), b.int(1))))
				}
				others := false
				for j := range exits {
					if j != i && !(n != nil && b.ite(bound, b.T(), b.not(conds[j])).isTrue()) {
						others = true
					}
				}
				if others {
					rc := b.restrict(c, b.restrict(any, b.T()))
					pc = b.and(pc, b.subst(rc, map[*Term]*Term{k: at}))
				}
			}
		}
		if pc.isFalse() {
			continue
		}
		m := map[*Term]*Term{k: at}
		for s, t := range sols {
			m[s] = b.subst(t, map[*Term]*Term{k: at})
		}
		sub := func(t *Term) *Term { return b.restrict(b.subst(b.restrict(t, x.st.pc), m), pc) }
		ns := &State{heap: map[*Obj]*Term{}, pc: pc}
		for o, v := range x.st.heap {
			if o.key != nil && fr.varies(o.key, k, vars) {
				nk := b.subst(o.key, m)
				if v == o.init {
					continue
				}
				p := e.rekey(o, nk, nil)
				if p.op != "ptr" || len(p.args) > 0 {
					giveUp("moving pointer")
				}
				ns.heap[p.aux.(*Obj)] = sub(v)
				continue
			}
			ns.heap[o] = sub(v)
		}
		for _, o := range e.objs[mark:] {
			if o.key == nil && o.kind != 'i' {
				if _, ok := ns.heap[o]; !ok {
					c := e.content(x.st, o)
					if c != nil {
						if d := sub(c); d != c {
							ns.heap[o] = d
							o.local = true
						}
					}
				}
			}
		}
		for v := range x.st.over {
			if ns.over == nil {
				ns.over = map[ssa.Value]*Term{}
			}
			ns.over[v] = sub(x.st.over[v])
		}
		for v := range outside {
			if ns.over == nil {
				ns.over = map[ssa.Value]*Term{}
			}
			if t, ok := x.st.over[v]; ok {
				ns.over[v] = sub(t)
			} else {
				ns.over[v] = sub(fr.regs[v])
			}
		}
		out = append(out, edge{x.from, x.to, ns})
	}
	return out
}

// maxUnroll: a loop that is known to run at most this often is evaluated step by step.
const maxUnroll = 8

// fixedTrips: the loop counts to a constant.
func (fr *frame) fixedTrips(h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool, st *State) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || L[h.Succs[1]] || !L[h.Succs[0]] {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS && c.Op != token.LEQ {
		return false
	}
	if in, ok := c.Y.(ssa.Instruction); ok && L[in.Block()] {
		return false
	}
	switch c.Y.(type) {
	case *ssa.Const:
	default:
		if _, ok := fr.regs[c.Y]; !ok {
			return false
		}
	}
	n := fr.e.b.restrict(fr.val(st, c.Y), st.pc)
	if n.op != "num" {
		// or a number the precondition fixes
		for k := int64(1); k <= 3 && fr.e.pre != nil; k++ {
			if fr.e.b.restrict(fr.e.b.eq(n, fr.e.b.int(k)), st.pc).isTrue() {
				return true
			}
		}
		return false
	}
	v, ok := n.intVal()
	return ok && v >= 0 && v <= maxUnroll
}

// unroll evaluates a loop that counts to a small constant step by step.
func (fr *frame) unroll(h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool, st0 *State, inits map[*ssa.Phi]*Term) ([]edge, bool) {
	if !fr.fixedTrips(h, L, st0) {
		return nil, false
	}
	var outside []ssa.Value
	for blk := range L {
		for _, in := range blk.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !L[r.Block()] {
					outside = append(outside, v)
					break
				}
			}
		}
	}
	st, vals := st0.clone(), inits
	ndef := len(fr.defers)
	var out []edge
	for i := 0; i <= maxUnroll+1; i++ {
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			fr.set(st, ph, vals[ph])
		}
		exits, backs := fr.region(L, h, []edge{{nil, h, st}})
		if len(fr.defers) > ndef {
			fr.defers = fr.defers[:ndef]
			return nil, false
		}
		for _, x := range fr.dropDead(exits) {
			if x.st.pc.isFalse() {
				continue
			}
			over := map[ssa.Value]*Term{}
			for v, t := range x.st.over {
				over[v] = t
			}
			for _, v := range outside {
				if _, ok := over[v]; !ok {
					if t, ok := fr.regs[v]; ok {
						over[v] = t
					}
				}
			}
			x.st.over = over
			out = append(out, x)
		}
		back, sel, live := fr.merge(backs)
		if back == nil {
			return out, true
		}
		pv := fr.phiVals(h, sel, live)
		vals = map[*ssa.Phi]*Term{}
		for ph, t := range pv {
			vals[ph] = fr.e.b.restrict(t, back.pc)
		}
		st = back
	}
	return nil, false
}

// boxLam: initial values may not refer to arrays of enclosing unknown slices only through objects; keep as they are.
func (e *Eng) boxLam(st *State, t *Term) *Term { return t }

func (fr *frame) varies(t, k *Term, vars []*lvar) bool {
	if contains(t, k) {
		return true
	}
	for _, v := range vars {
		if contains(t, v.sym) {
			return true
		}
	}
	return false
}

// dropDead removes exits that can only end in a failure or a panic.
func (fr *frame) dropDead(exits []edge) []edge {
	if fr.e.opts.keepErr {
		return exits
	}
	var out []edge
	for _, x := range exits {
		if !fr.deadEnd(x) {
			out = append(out, x)
		}
	}
	return out
}

func (fr *frame) deadEnd(x edge) bool {
	blk := x.to
	// syntactic look-ahead: only straight code up to a return or panic
	cur := blk
	for i := 0; i < 8; i++ {
		last := cur.Instrs[len(cur.Instrs)-1]
		switch last.(type) {
		case *ssa.Return, *ssa.Panic:
			i = 8
		case *ssa.Jump:
			cur = cur.Succs[0]
			continue
		default:
			return false
		}
	}
	if res := fr.fn.Signature.Results(); res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) {
		if _, ok := cur.Instrs[len(cur.Instrs)-1].(*ssa.Panic); !ok {
			return false
		}
	}
	saved := fr.rets
	fr.rets = nil
	defer func() { fr.rets = saved }()
	es := []edge{{x.from, x.to, x.st.clone()}}
	for i := 0; i < 8 && len(es) == 1; i++ {
		es = fr.block(es[0].to, es, false)
	}
	for _, r := range fr.rets {
		if !r.st.pc.isFalse() {
			return false
		}
	}
	return true
}

// tripBound finds the iteration count after which the loop is left in any case: bound is the condition that holds from then on.
func (e *Eng) tripBound(any, k *Term) (n, bound *Term) {
	b := e.b
	var ats []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t.op == "bool" || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			ats = append(ats, t.args[0])
			w(t.args[1])
			w(t.args[2])
			return
		}
		ats = append(ats, t)
	}
	w(any)
	for _, a := range ats {
		if !(a.isApp("ge0") || a.isApp("eq0")) {
			continue
		}
		p := a.args[0]
		ks, cs := b.polyParts(p)
		var c *big.Rat
		ok := true
		for i, x := range ks {
			if x == k {
				c = cs[i]
			} else if contains(x, k) {
				ok = false
			}
		}
		if !ok || c == nil {
			continue
		}
		rest := b.sub(p, b.scale(k, c)) // p = c*k + rest
		cond := func(v bool) bool {
			at := a
			var q *Term
			if v {
				q = b.ite(at, any, b.T())
			} else {
				q = b.ite(at, b.T(), any)
			}
			return q.isTrue()
		}
		if a.s == "ge0" {
			if c.Sign() < 0 && cond(false) {
				// ge0(rest - d k): false from k > rest/d on
				d := new(big.Rat).Neg(c)
				if d.Cmp(ratOne) == 0 {
					return b.add(rest, b.int(1)), b.not(a)
				}
				if !d.IsInt() {
					continue
				}
				return b.idiv(b.add(rest, b.num(d)), b.num(d)), b.not(a)
			}
			if c.Sign() > 0 && cond(true) {
				// ge0(d k + rest): true from k >= -rest/d on
				if c.Cmp(ratOne) == 0 {
					return b.neg(rest), a
				}
				if !c.IsInt() {
					continue
				}
				return b.idiv(b.add(b.neg(rest), b.sub(b.num(c), b.int(1))), b.num(c)), a
			}
			continue
		}
		if cond(true) {
			v := b.scale(b.neg(rest), new(big.Rat).Inv(c))
			return v, a
		}
	}
	return nil, nil
}

// hitBound: any holds only while k < n (the other ways out of the loop were discarded)
func (e *Eng) hitBound(any, k *Term) (n, at *Term) {
	b := e.b
	for _, a := range iteConds(any) {
		if !a.isApp("ge0") {
			continue
		}
		if rest := b.add(a.args[0], k); !contains(rest, k) && b.and(any, b.not(a)).isFalse() {
			return b.add(rest, b.int(1)), a
		}
		if rest := b.sub(a.args[0], k); !contains(rest, k) && b.and(any, a).isFalse() {
			return b.neg(rest), b.not(a)
		}
	}
	return nil, nil
}

func iteConds(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			w(t.args[0])
			w(t.args[1])
			w(t.args[2])
		} else if t.op == "app" {
			out = append(out, t)
		}
	}
	w(t)
	return out
}

// tripBoundS also looks for bounds that depend on conditions that do not change in the loop.
func (e *Eng) tripBoundS(any, k *Term, d int) (n, bound *Term) {
	if n, bound = e.tripBound(any, k); n != nil || d > 4 {
		return
	}
	b := e.b
	var at *Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t.op != "ite" || seen[t] || at != nil {
			return
		}
		seen[t] = true
		if !contains(t.args[0], k) {
			at = t.args[0]
			return
		}
		w(t.args[1])
		w(t.args[2])
	}
	w(any)
	if at == nil {
		return nil, nil
	}
	n1, b1 := e.tripBoundS(b.restrict(any, at), k, d+1)
	n2, b2 := e.tripBoundS(b.restrict(any, b.not(at)), k, d+1)
	if n1 == nil || n2 == nil {
		return nil, nil
	}
	return b.ite(at, n1, n2), b.ite(at, b1, b2)
}

func syms(t *Term, set map[*Term]bool, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if set[t] {
			out[t] = true
		}
		if t.op == "ptr" {
			if k := t.aux.(*Obj).key; k != nil {
				w(k)
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
}

func (fr *frame) solve(vars []*lvar, k *Term, conds []*Term) map[*Term]*Term {
	e, b := fr.e, fr.e.b
	sols := map[*Term]*Term{}
	un := map[*Term]bool{}
	for _, v := range vars {
		if v.next == nil {
			giveUp("no next value")
		}
		un[v.sym] = true
	}
	free := func(t *Term) bool {
		o := map[*Term]bool{}
		syms(t, un, o)
		return len(o) == 0
	}
	onlySelf := func(t *Term, self *Term) bool {
		o := map[*Term]bool{}
		syms(t, un, o)
		delete(o, self)
		return len(o) == 0
	}
	setSol := func(v *lvar, s *Term) {
		v.sol = s
		delete(un, v.sym)
		sols[v.sym] = s
		m := map[*Term]*Term{v.sym: s}
		for _, w := range vars {
			if w.sol == nil {
				w.next = b.subst(w.next, m)
			}
		}
	}
	k0 := b.int(0)
	for ch := true; ch; {
		ch = false
		for _, v := range vars {
			if v.sol != nil {
				continue
			}
			N := v.next
			if N == v.sym {
				setSol(v, v.init)
				ch = true
				continue
			}
			// length of an updated array does not change
			if v.sym.kind == 's' {
				ln := b.seqLen(v.sym)
				if contains(N, ln) && b.seqLen(N) == ln {
					m := map[*Term]*Term{ln: b.seqLen(v.init)}
					for _, w := range vars {
						if w.sol == nil {
							w.next = b.subst(w.next, m)
						}
					}
					for i := range conds {
						conds[i] = b.subst(conds[i], m)
					}
					sols[ln] = b.seqLen(v.init)
					N = v.next
					ch = true
				}
			}
			if free(N) {
				// overwritten in every iteration
				prev := b.subst(N, map[*Term]*Term{k: b.sub(k, b.int(1))})
				var s *Term
				if prev == N && N == v.init {
					s = N
				} else {
					s = b.ite(b.eq(k, k0), v.init, prev)
					// closed form that also covers the start
					if b.subst(prev, map[*Term]*Term{k: k0}) == v.init {
						s = prev
					}
				}
				setSol(v, s)
				ch = true
				continue
			}
			if !onlySelf(N, v.sym) {
				continue
			}
			if s := fr.solveOne(v, N, k); s != nil {
				setSol(v, s)
				ch = true
			}
		}
	}
	// what remains: folds
	var rest []*lvar
	for _, v := range vars {
		if v.sol == nil {
			rest = append(rest, v)
		}
	}
	if len(rest) > 0 {
		by := map[*Term]*lvar{}
		for _, v := range rest {
			by[v.sym] = v
		}
		for _, v := range rest {
			// v first, then what it needs in order of appearance
			var order []*lvar
			seen := map[*lvar]bool{}
			var visit func(x *lvar)
			visit = func(x *lvar) {
				if seen[x] {
					return
				}
				seen[x] = true
				order = append(order, x)
				var ds []*lvar
				st := map[*Term]bool{}
				var w func(t *Term)
				w = func(t *Term) {
					if st[t] {
						return
					}
					st[t] = true
					if y, ok := by[t]; ok {
						ds = append(ds, y)
					}
					if t.op == "ptr" {
						if kk := t.aux.(*Obj).key; kk != nil {
							w(kk)
						}
					}
					for _, a := range t.args {
						w(a)
					}
				}
				w(x.next)
				for _, y := range ds {
					visit(y)
				}
			}
			visit(v)
			var in, steps, accs []*Term
			for _, x := range order {
				in = append(in, x.init)
				steps = append(steps, x.next)
				accs = append(accs, x.sym)
			}
			kk := b.freshSym("κ", types.Typ[types.Int])
			for i := range steps {
				steps[i] = b.subst(steps[i], map[*Term]*Term{k: kk})
			}
			v.sol = b.fold(k, in, steps, accs, kk, v.typ)
			if v.sol.kind != v.sym.kind {
				v.sol = b.mk(Term{op: "fold", kind: v.sym.kind, s: v.sol.s, args: v.sol.args, lvl: v.sol.lvl})
				if v.sol.typ == nil {
					v.sol.typ = v.typ
				}
			}
		}
		for _, v := range rest {
			sols[v.sym] = v.sol
		}
	}
	_ = e
	return sols
}

func (fr *frame) solveOne(v *lvar, N, k *Term) *Term {
	b := fr.e.b
	lam := v.sym
	kk := b.freshSym("κ", types.Typ[types.Int])
	switch lam.kind {
	case 'n':
		d := b.sub(N, lam)
		if !contains(d, lam) {
			if !contains(d, k) {
				return b.add(v.init, b.mul(d, k))
			}
			return b.add(v.init, b.sum(k, b.subst(d, map[*Term]*Term{k: kk}), kk))
		}
	case 'b':
		// N = c or λ
		t, f := b.subst(N, map[*Term]*Term{lam: b.T()}), b.subst(N, map[*Term]*Term{lam: b.F()})
		if t.isTrue() {
			ex := b.ge0(b.sub(b.sub(k, b.first(k, b.subst(f, map[*Term]*Term{k: kk}), kk)), b.int(1)))
			return b.or(v.init, ex)
		}
		if f.isFalse() {
			ex := b.ge0(b.sub(b.sub(k, b.first(k, b.not(b.subst(t, map[*Term]*Term{k: kk})), kk)), b.int(1)))
			return b.and(v.init, b.not(ex))
		}
	case 's':
		segs := segsOf(N)
		if len(segs) > 0 && segs[0] == lam {
			x := b.cat(segs[1:]...)
			if !contains(x, lam) {
				return b.cat(v.init, b.star(k, b.subst(x, map[*Term]*Term{k: kk}), kk))
			}
			// λ followed by something of which only the length of λ matters, when the length grows linearly
			if x2, ok := fr.lenOnly(v, x, k); ok {
				return b.cat(v.init, b.star(k, b.subst(x2, map[*Term]*Term{k: kk}), kk))
			}
		}
		if n := len(segs); n > 1 && segs[n-1] == lam {
			x := b.cat(segs[:n-1]...)
			if !contains(x, lam) && !contains(x, k) {
				return b.cat(b.star(k, x, kk), v.init)
			}
		}
		// element a0+c*κ replaced
		if s := fr.solveUpd(v, segs, k, kk); s != nil {
			return s
		}
	case 'o':
		// map updates
		if s := fr.solveMap(v, N, k, kk); s != nil {
			return s
		}
	}
	return nil
}

// lenOnly: x uses λ only through its length, and every iteration adds the same or a κ-dependent known length.
func (fr *frame) lenOnly(v *lvar, x, k *Term) (*Term, bool) {
	b := fr.e.b
	ln := b.seqLen(v.sym)
	hole := b.freshSym("ℓ", types.Typ[types.Int])
	y := b.subst(x, map[*Term]*Term{ln: hole})
	if contains(y, v.sym) {
		return nil, false
	}
	d := b.seqLen(y)
	if contains(d, hole) {
		return nil, false
	}
	kk := b.freshSym("κ", types.Typ[types.Int])
	cur := b.add(b.seqLen(v.init), b.sum(k, b.subst(d, map[*Term]*Term{k: kk}), kk))
	return b.subst(y, map[*Term]*Term{hole: cur}), true
}

// solveUpd: λ with the elements [a0+cκ, a0+cκ+c) replaced in iteration κ.
func (fr *frame) solveUpd(v *lvar, segs []*Term, k, kk *Term) *Term {
	b := fr.e.b
	lam := v.sym
	n := b.seqLen(v.init)
	var a, z, pre, suf *Term
	mid := segs
	if len(mid) == 0 {
		return nil
	}
	if f := mid[0]; f.op == "sub" && f.args[0] == lam && f.args[1] == b.int(0) {
		a = f.args[2]
		pre = f
		mid = mid[1:]
	} else {
		a = b.int(0)
	}
	if len(mid) == 0 {
		return nil
	}
	if l := mid[len(mid)-1]; l.op == "sub" && l.args[0] == lam {
		z = l.args[1]
		suf = l
		mid = mid[:len(mid)-1]
		if l.args[2] != n && l.args[2] != b.seqLen(lam) {
			return nil
		}
	} else {
		z = n
	}
	_ = pre
	_ = suf
	x := b.cat(mid...)
	if contains(x, lam) || contains(b.sub(z, a), k) {
		return nil
	}
	step := b.sub(z, a)
	if b.seqLen(x) != step {
		return nil
	}
	a0 := b.subst(a, map[*Term]*Term{k: b.int(0)})
	// a must advance by step
	if b.sub(a, b.add(a0, b.mul(step, k))).op != "num" || b.sub(a, b.add(a0, b.mul(step, k))) != b.int(0) {
		return nil
	}
	end := b.add(a0, b.mul(step, k))
	return b.cat(b.slice(v.init, b.int(0), a0), b.star(k, b.subst(x, map[*Term]*Term{k: kk}), kk), b.slice(v.init, end, n))
}

func (fr *frame) solveMap(v *lvar, N, k, kk *Term) *Term {
	b := fr.e.b
	lam := v.sym
	// collect: decision structure with leaves λ or mput(λ, key, val)
	g := b.mapIte(N, func(l *Term) *Term {
		if l == lam {
			return b.F()
		}
		return b.T()
	})
	var key, val *Term
	ok := true
	leaves(N, func(l *Term) {
		if l == lam {
			return
		}
		if !l.isApp("mput") || l.args[0] != lam {
			ok = false
			return
		}
		if key == nil {
			key, val = l.args[1], l.args[2]
		} else if key != l.args[1] || val != l.args[2] {
			ok = false
		}
	})
	if !ok || key == nil {
		// different values in different cases: conditional value
		ok = true
		key = b.mapIte(N, func(l *Term) *Term {
			if l.isApp("mput") && l.args[0] == lam {
				return l.args[1]
			}
			if l != lam {
				ok = false
			}
			return b.nil_()
		})
		val = b.mapIte(N, func(l *Term) *Term {
			if l.isApp("mput") {
				return l.args[2]
			}
			return b.nil_()
		})
		if !ok {
			return nil
		}
		key, val = b.restrict(key, g), b.restrict(val, g)
	}
	if contains(g, lam) {
		// "unless it is already there": a set of keys; the values must not depend on who was first
		return nil
	}
	if contains(key, lam) || contains(val, lam) {
		return nil
	}
	s := map[*Term]*Term{k: kk}
	return b.meach(v.init, k, b.subst(g, s), b.subst(key, s), b.subst(val, s), kk)
}

func lamName(s string) bool { return strings.HasPrefix(s, "λ") }
