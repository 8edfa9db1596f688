package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cctx struct {
	e    *Eng
	fr   *frame
	st   *State
	args []*Term
	sig  *types.Signature
	name string
	cc   *ssa.CallCommon
	argT []types.Type
}

func (fr *frame) call(st *State, cc *ssa.CallCommon, inst ssa.Instruction) (*Term, bool) {
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, fr.val(st, a))
	}
	var fn *Term
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fn = fr.val(st, cc.Value)
	}
	return fr.callWith(st, cc, fn, args, inst)
}

func (fr *frame) callWith(st *State, cc *ssa.CallCommon, fn *Term, args []*Term, inst ssa.Instruction) (*Term, bool) {
	e := fr.e
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, bi.Name(), cc, args)
	}
	if cc.IsInvoke() {
		return e.branch(st, e.b.restrict(fn, st.pc), func(s *State, l *Term) (*Term, bool) {
			return e.invoke(fr, s, l, cc, args)
		})
	}
	return e.branch(st, e.b.restrict(fn, st.pc), func(s *State, l *Term) (*Term, bool) {
		if l.isNil() {
			return nil, false
		}
		if l.op == "clo" {
			return e.callFn(fr, s, l.aux.(*ssa.Function), args, l.args, cc)
		}
		if len(e.opts.cells) == 0 && !e.opts.noHavoc && !e.opts.paired {
			if ci, ok := inst.(ssa.CallInstruction); ok {
				for _, g := range e.p.callees[ci] {
					if e.eff == nil {
						e.eff = newEffects(e.p)
					}
					e.eff.types()
					if len(e.eff.all[g]) > 0 {
						giveUp("call of an unknown function value, possibly %s, which changes memory", fname(g))
					}
				}
			}
		}
		all := append([]*Term{l}, args...)
		for _, c := range e.opts.cells {
			all = append(all, e.content(s, c.aux.(*Obj)))
		}
		r, alive := e.opaqueCall(s, "fnvalue", nil, all, nil, cc.Signature())
		if alive {
			var bx []*Term
			for _, a := range all {
				bx = append(bx, e.b.restrictIn(e.box(s, a), s.pc))
			}
			for i, c := range e.opts.cells {
				o := c.aux.(*Obj)
				s.heap[o] = e.b.app(fmt.Sprintf("fx:fnvalue:%d", i), o.typ, bx...)
			}
		}
		return r, alive
	})
}

// branch evaluates f for every alternative of t and joins the outcomes.
func (e *Eng) branch(st *State, t *Term, f func(*State, *Term) (*Term, bool)) (*Term, bool) {
	if t.op != "ite" {
		return f(st, t)
	}
	b := e.b
	c := b.restrict(t.args[0], st.pc)
	s1, s2 := st.clone(), st.clone()
	s1.pc, s2.pc = b.and(st.pc, c), b.and(st.pc, b.not(c))
	var r1, r2 *Term
	a1, a2 := false, false
	if !s1.pc.isFalse() {
		r1, a1 = e.branch(s1, t.args[1], f)
	}
	if !s2.pc.isFalse() {
		r2, a2 = e.branch(s2, t.args[2], f)
	}
	take := func(s *State, r *Term) (*Term, bool) {
		st.heap, st.pc, st.over = s.heap, s.pc, s.over
		return r, true
	}
	switch {
	case a1 && a2:
		m, sel := e.mergeStates([]*State{s1, s2})
		st.heap, st.pc, st.over = m.heap, m.pc, m.over
		if r1 == nil {
			return nil, true
		}
		return e.mergeVals(sel, []*Term{r1, r2}), true
	case a1:
		return take(s1, r1)
	case a2:
		return take(s2, r2)
	}
	return nil, false
}

func extName(f *ssa.Function) string { return f.RelString(nil) }

func (e *Eng) callFn(fr *frame, st *State, f *ssa.Function, args, free []*Term, cc *ssa.CallCommon) (*Term, bool) {
	name := extName(f)
	if m, ok := extModels[name]; ok {
		c := &cctx{e: e, fr: fr, st: st, args: args, sig: f.Signature, name: name, cc: cc}
		if cc != nil {
			for _, a := range cc.Args {
				c.argT = append(c.argT, a.Type())
			}
		}
		return e.extResult(c, m)
	}
	if e.opts.opaque[f] || e.byName(f) {
		if g := e.opts.alias[f]; g != nil {
			name = extName(g)
		}
		return e.opaqueCall(st, "call:"+name, f, args, free, f.Signature)
	}
	if f.Blocks != nil && (e.p.inLib[f] || f.Synthetic != "" || f.Pkg != nil && e.p.isLibPkg(f.Pkg.Pkg) || f.Parent() != nil) {
		return e.inline(f, args, free, st)
	}
	if !readsOnly(name) && mayWriteArgs(f.Signature) {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("  !! not modelled", name)
		}
		giveUp("library function %s is not modelled", name)
	}
	if n := strings.TrimPrefix(name, "(*regexp.Regexp)."); len(args) == 2 && (n == "FindIndex" || n == "FindStringIndex") {
		// the first of the matches of which there is at most one
		all := strings.Replace(n, "Find", "FindAll", 1)
		if o, _, _ := types.LookupFieldOrMethod(f.Signature.Recv().Type(), true, nil, all); o != nil {
			r, ok := e.opaqueCall(st, "(*regexp.Regexp)."+all, nil, []*Term{args[0], args[1], e.b.int(1)}, free, o.Type().(*types.Signature))
			if !ok {
				return r, ok
			}
			b, t := e.b, f.Signature.Results().At(0).Type()
			return b.ite(b.eq(b.seqLen(b.elems(r)), b.int(0)), b.nil_(), b.idx(b.elems(r), b.int(0), t)), true
		}
	}
	return e.opaqueCall(st, name, nil, args, free, f.Signature)
}

// readsOnly: library functions that do not change what their arguments refer to
func readsOnly(n string) bool {
	if strings.HasPrefix(n, "(*regexp.Regexp).") {
		return !strings.HasSuffix(n, "Func") && n != "(*regexp.Regexp).Longest" && n != "(*regexp.Regexp).UnmarshalText" && !strings.HasPrefix(n, "(*regexp.Regexp).Expand")
	}
	for _, p := range []string{"strings.", "strconv.Parse", "strconv.Quote", "strconv.Unquote", "strconv.Format", "unicode.", "unicode/utf16.Encode", "unicode/utf16.Decode", "unicode/utf8.Valid", "unicode/utf8.Rune", "unicode/utf8.Full", "unicode/utf8.DecodeR",
		"unicode/utf8.DecodeL", "path.", "path/filepath.", "errors.", "crypto/md5.Sum", "crypto/sha256.Sum", "crypto/sha1.Sum", "hash/adler32.Checksum", "hash/crc32.Checksum", "encoding/hex.EncodeToString", "(*strings.Replacer).Replace", "math.", "(*strings.Builder).Len", "(*bytes.Buffer).Cap", "sort.Search", "sort.IntsAreSorted", "sort.StringsAreSorted"} {
		if strings.HasPrefix(n, p) {
			return !strings.HasSuffix(n, "Func")
		}
	}
	if strings.HasPrefix(n, "(time.Time).") {
		return true
	}
	if strings.HasPrefix(n, "bytes.") {
		switch n {
		case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader":
			return false
		}
		return !strings.HasSuffix(n, "Func")
	}
	return false
}

// mayWriteArgs: an argument refers to memory the caller sees
func mayWriteArgs(s *types.Signature) bool {
	var ref func(t types.Type, d int) bool
	ref = func(t types.Type, d int) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return false
		case *types.Struct:
			for i := 0; i < u.NumFields() && d < 3; i++ {
				if ref(u.Field(i).Type(), d+1) {
					return true
				}
			}
			return false
		case *types.Array:
			return ref(u.Elem(), d+1)
		}
		return true
	}
	if r := s.Recv(); r != nil && ref(r.Type(), 0) {
		return true
	}
	for i := 0; i < s.Params().Len(); i++ {
		if ref(s.Params().At(i).Type(), 0) {
			return true
		}
	}
	return false
}

// a model returns nil for "no result" and dead to end the path
var deadTerm = &Term{op: "dead"}

func (e *Eng) extResult(c *cctx, m func(*cctx) *Term) (*Term, bool) {
	r := m(c)
	if r == deadTerm {
		return nil, false
	}
	return r, true
}

// onlyReads: an interface through which nothing but the bytes of a reader can be seen.
func onlyReads(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 1 && it.Method(0).Name() == "Read"
}

// readerBytes: readers over bytes in memory are told apart by what they still give only.
func (e *Eng) readerBytes(st *State, a *Term) *Term {
	b := e.b
	return b.mapIte(b.restrict(a, st.pc), func(l *Term) *Term {
		if l.op != "iface" || l.s != "" {
			return l
		}
		pt, ok := l.typ.(*types.Pointer)
		if !ok {
			return l
		}
		p := e.dropNil(e.toPtr(l.args[0], pt.Elem()))
		if p.op != "ptr" {
			return l
		}
		v := e.load(st, p)
		switch types.TypeString(pt, nil) {
		case "*bytes.Buffer":
			return b.appK("nonnil:stream", 'o', b.bufseq(v))
		case "*bytes.Reader", "*strings.Reader":
			if v.op == "struct" && v.s == "rdr" && len(v.args) == 2 {
				return b.appK("nonnil:stream", 'o', b.slice(v.args[0], v.args[1], b.seqLen(v.args[0])))
			}
		}
		return l
	})
}

// opaqueCall: the results are uninterpreted functions of everything that is passed in.
func (e *Eng) opaqueCall(st *State, name string, f *ssa.Function, args, free []*Term, sig *types.Signature) (*Term, bool) {
	b := e.b
	e.opaqued[name] = true
	var bx []*Term
	all := append(append([]*Term{}, args...), free...)
	for i, a := range all {
		if k := i - (len(args) - sig.Params().Len()); k >= 0 && i < len(args) && onlyReads(sig.Params().At(k).Type()) {
			a = e.readerBytes(st, a)
		}
		bx = append(bx, b.restrictIn(e.box(st, a), st.pc))
	}
	var regs []*Obj
	if len(e.opts.region) > 0 && f != nil {
		for s := range e.opts.region {
			o := e.regions[s]
			for _, p := range f.Params {
				if reaches(e.p, p.Type(), s, map[string]bool{}) {
					regs = append(regs, o)
					break
				}
			}
		}
		sort.Slice(regs, func(i, j int) bool { return regs[i].id < regs[j].id })
		for _, o := range regs {
			bx = append(bx, b.restrictIn(e.box(st, e.content(st, o)), st.pc))
		}
	}
	if f != nil && !e.opts.noHavoc {
		if e.eff == nil {
			e.eff = newEffects(e.p)
		}
		if len(regs) > 0 {
			e.eff.types()
			for _, o := range regs {
				in := map[string]bool{}
				owned(o.typ, in)
				hit := false
				for t := range e.eff.all[f] {
					hit = hit || in[t]
				}
				if hit {
					st.heap[o] = b.app("fx:"+name+":"+types.TypeString(o.typ, nil), o.init.typ, bx...)
				}
			}
		}
		e.eff.types()
		hv := func(i, n int, a *Term) {
			if d, ok := e.eff.w[f][i]; !ok || d == "" {
				return
			}
			h := &havocker{e: e, st: st, name: name, n: n, bx: bx, ws: map[string]bool{}, fs: e.eff.fields[f], seen: map[*Obj]bool{}}
			any := false
			for t := range e.eff.wt[f][i] {
				any = true
				if !e.opts.region[t] {
					h.ws[t] = true
				}
			}
			if !any {
				h.ws["?"] = true
			}
			if len(h.ws) > 0 {
				h.value(a, nil, "", b.T())
			}
		}
		for i, a := range args {
			hv(i, i, a)
		}
		for i, a := range free {
			hv(-(i + 1), len(args)+i, a)
		}
	}
	res := sig.Results()
	var out []*Term
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if isErrorT(t) && !e.opts.keepErr {
			ev := b.nil_()
			if f != nil {
				for _, g := range e.keptBy(f) {
					ev = b.ite(b.appK(name+" fails with "+g.Name(), 'b', bx...), e.global(g).init, ev)
				}
			}
			out = append(out, ev)
			continue
		}
		n := name
		if res.Len() > 1 {
			n += "#" + string(rune('0'+i))
		}
		out = append(out, b.app(n, t, bx...))
	}
	switch len(out) {
	case 0:
		return nil, true
	case 1:
		return out[0], true
	}
	return b.tuple(out), true
}

// havocker replaces what a call may have written by uninterpreted functions of everything passed in.
type havocker struct {
	e    *Eng
	st   *State
	name string
	n    int
	bx   []*Term
	ws   map[string]bool // types of the objects written
	fs   map[string]bool // fields written
	seen map[*Obj]bool
}

func (h *havocker) fx(tag string) string { return "fx:" + h.name + ":" + string(rune('0'+h.n)) + tag }

func (h *havocker) hit(t types.Type) bool {
	return h.ws["?"] || h.ws[types.TypeString(t, nil)]
}

func (h *havocker) hitSlice(t, elem types.Type) bool {
	return h.ws["?"] || h.hit(elem) || h.ws[types.TypeString(types.NewSlice(elem), nil)] || t != nil && h.hit(t)
}

// deep: is something written reached from a value of this type?
func (h *havocker) deep(t types.Type) bool {
	if h.ws["?"] {
		return true
	}
	for s := range h.ws {
		seen := map[string]bool{}
		for r := range h.e.opts.region {
			seen[r] = true
		}
		if reaches(h.e.p, t, s, seen) {
			return true
		}
	}
	return false
}

func (h *havocker) value(a *Term, typ types.Type, tag string, c *Term) {
	e, b := h.e, h.e.b
	switch a.op {
	case "ite":
		h.value(a.args[1], typ, tag, b.and(c, a.args[0]))
		h.value(a.args[2], typ, tag, b.and(c, b.not(a.args[0])))
	case "ptr":
		o := a.aux.(*Obj)
		if o.kind == 'i' || o.kind == 'r' && len(a.args) == 1 {
			return
		}
		if len(a.args) == 0 {
			if h.seen[o] {
				return
			}
			h.seen[o] = true
		}
		old, t := e.getPath(e.content(h.st, o), o.ctype(), a.args)
		switch o.kind {
		case 'm':
			if len(a.args) == 0 {
				if mt, ok := o.typ.Underlying().(*types.Map); ok && !h.hit(o.typ) && !h.hit(mt) && !h.deep(mt.Elem()) {
					return
				}
				e.storeIf(h.st, a, b.app(h.fx(tag), t, h.bx...), c)
				return
			}
		}
		if nv := h.content(old, t, tag, c); nv != nil {
			e.storeIf(h.st, a, nv, c)
		}
	case "slice":
		el := types.Type(nil)
		if typ != nil {
			el = elemType(typ)
		}
		if p := a.args[0]; el == nil && p.op == "ptr" && len(p.args) == 0 && p.aux.(*Obj).typ != nil {
			el = p.aux.(*Obj).typ
		}
		if el != nil && !h.hitSlice(typ, el) && !h.deep(el) {
			return
		}
		v := e.load(h.st, a.args[0])
		e.storeIf(h.st, a.args[0], b.appK(h.fx(tag), 's', append([]*Term{v}, h.bx...)...), c)
	case "iface":
		h.value(a.args[0], nil, tag, c)
	case "sym", "app":
		t := a.typ
		if t == nil {
			t = typ
		}
		if t == nil {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			h.value(e.toPtr(a, u.Elem()), t, tag, c)
		case *types.Slice:
			h.value(e.toSlice(a, u.Elem()), t, tag, c)
		case *types.Map:
			h.value(e.toMap(a, u), t, tag, c)
		}
	}
}

// content: what memory of type t holds after the call, nil when it is left alone.
func (h *havocker) content(old *Term, t types.Type, tag string, c *Term) *Term {
	e, b := h.e, h.e.b
	st := structOf(t)
	plain := st != nil && old.kind != 's' && !isBufT(t) && e.p.isLibT(t)
	if !plain {
		if h.hit(t) {
			return b.app(h.fx(tag), t, h.bx...)
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if h.deep(t) {
				h.value(old, t, tag+"*", c)
			}
		case *types.Pointer:
			if h.deep(u) {
				h.value(old, t, tag+"*", c)
			}
		case *types.Map, *types.Interface:
			if h.deep(t) {
				h.value(old, t, tag+"*", c)
			}
		case *types.Struct:
			if h.deep(t) {
				return b.app(h.fx(tag), t, h.bx...)
			}
		}
		return nil
	}
	s := types.TypeString(t, nil)
	if h.ws["?"] || h.fs[s+".*"] && h.ws[s] {
		return b.app(h.fx(tag), t, h.bx...)
	}
	fs := append([]*Term{}, e.expand(old, t)...)
	ch := false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ft := tag + "." + f.Name()
		if h.ws[s] && h.fs[s+"."+f.Name()] {
			fs[i] = b.app(h.fx(ft), f.Type(), h.bx...)
			ch = true
			continue
		}
		if !h.deep(f.Type()) {
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			if nv := h.content(fs[i], f.Type(), ft, c); nv != nil {
				fs[i] = nv
				ch = true
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			h.value(fs[i], f.Type(), ft, c)
		}
	}
	if !ch {
		return nil
	}
	return b.mkStruct(s, t, fs)
}

func (e *Eng) invoke(fr *frame, st *State, recv *Term, cc *ssa.CallCommon, args []*Term) (*Term, bool) {
	if recv.isNil() {
		return nil, false
	}
	m := cc.Method
	if recv.op == "iface" {
		if recv.typ != nil {
			if f := e.p.ssa.LookupMethod(recv.typ, m.Pkg(), m.Name()); f != nil {
				return e.callFn(fr, st, f, append([]*Term{recv.args[0]}, args...), nil, nil)
			}
		}
	}
	if k, ok := recv.aux.(*typeKey); ok && k.t == nil {
		_ = k
	}
	nm := "invoke:" + m.Name()
	c := &cctx{e: e, fr: fr, st: st, args: append([]*Term{recv}, args...), sig: cc.Signature(), name: nm, cc: cc}
	if md, ok := extModels[nm]; ok {
		if r := md(c); r != nil {
			if r == deadTerm {
				return nil, false
			}
			if r.op == "novalue" {
				return nil, true
			}
			return r, true
		}
	}
	return e.opaqueCall(st, nm+":"+types.TypeString(cc.Value.Type(), func(p *types.Package) string { return p.Name() }), nil, append([]*Term{recv}, args...), nil, cc.Signature())
}

func (fr *frame) builtin(st *State, name string, cc *ssa.CallCommon, args []*Term) (*Term, bool) {
	e, b := fr.e, fr.e.b
	switch name {
	case "len":
		if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			m := e.mapContent(st, args[0], mt)
			return b.seqLen(b.app("keys", types.NewArray(mt.Key(), 0), m)), true
		}
		return e.lenOf(st, args[0]), true
	case "cap":
		return b.appK("cap", 'n', e.lenOf(st, args[0])), true
	case "append":
		et := elemType(cc.Args[0].Type())
		s := e.seqOf(st, args[0], et)
		if len(args) < 2 || args[1].isNil() {
			return args[0], true
		}
		x := e.seqOf(st, args[1], et)
		if x.op == "str" && x.s == "" {
			return args[0], true
		}
		return e.mkSlice(b.cat(s, x), et), true
	case "copy":
		et := elemType(cc.Args[0].Type())
		d := e.dropNil(e.toSlice(args[0], et))
		if d.isNil() {
			return b.int(0), true
		}
		if d.op != "slice" {
			giveUp("copy to one of several slices")
		}
		src := e.seqOf(st, args[1], et)
		ld, ls := d.args[2], b.seqLen(src)
		cont := e.load(st, d.args[0])
		n := b.mapIte(b.sub(ld, ls), func(x *Term) *Term { return x })
		fits := b.ge0(n)
		cnt := b.ite(fits, ls, ld)
		mk := func(n *Term) *Term {
			end := b.add(d.args[1], n)
			return b.cat(b.slice(cont, b.int(0), d.args[1]), b.slice(src, b.int(0), n), b.slice(cont, end, b.seqLen(cont)))
		}
		e.store(st, d.args[0], b.mapIte(cnt, mk))
		return cnt, true
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		p := e.dropNil(e.toMap(args[0], mt))
		if p.isNil() {
			return nil, true
		}
		o := p.aux.(*Obj)
		st.heap[o] = b.appK("mdel", 'o', e.content(st, o), e.mapKey(st, args[1]))
		return nil, true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			if isFloatT(cc.Args[0].Type()) {
				lt = b.lt0(b.sub(a, r))
			} else {
				lt = b.ge0(b.sub(b.sub(r, a), b.int(1)))
			}
			if name == "max" {
				lt = b.not(lt)
			}
			r = b.ite(lt, a, r)
		}
		return r, true
	case "print", "println":
		return nil, true
	case "recover":
		return b.nil_(), true
	case "ssa:wrapnilchk":
		return args[0], true
	}
	if strings.HasPrefix(name, "ssa:") {
		return args[0], true
	}
	giveUp("builtin %s", name)
	return nil, false
}

// reaches: can an object of the type named s be reached from a value of type t?
func reaches(p *Prog, t types.Type, s string, seen map[string]bool) bool {
	n := types.TypeString(t, nil)
	if n == s {
		return true
	}
	if seen[n] {
		return false
	}
	seen[n] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reaches(p, u.Elem(), s, seen)
	case *types.Slice:
		return reaches(p, u.Elem(), s, seen)
	case *types.Array:
		return reaches(p, u.Elem(), s, seen)
	case *types.Map:
		return reaches(p, u.Key(), s, seen) || reaches(p, u.Elem(), s, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if reaches(p, u.Field(i).Type(), s, seen) {
				return true
			}
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			return false
		}
		for _, c := range p.pkgs {
			if !p.isLibPkg(c.Types) {
				continue
			}
			sc := c.Types.Scope()
			for _, nm := range sc.Names() {
				if tn, ok := sc.Lookup(nm).(*types.TypeName); ok {
					if pt := types.NewPointer(tn.Type()); types.Implements(pt, u) || types.Implements(tn.Type(), u) {
						if reaches(p, tn.Type(), s, seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
