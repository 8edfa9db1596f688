package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

// Models of standard library functions. In success mode calls that may fail are assumed to succeed.

var extModels map[string]func(*cctx) *Term

var noValue = &Term{op: "novalue"}

func (c *cctx) typ(i int) types.Type { return c.sig.Results().At(i).Type() }

// result builds the result tuple from the non-error results; errors are nil.
func (c *cctx) result(vs ...*Term) *Term {
	res := c.sig.Results()
	var out []*Term
	j := 0
	for i := 0; i < res.Len(); i++ {
		if isErrorT(res.At(i).Type()) && j >= len(vs) {
			out = append(out, c.e.b.nil_())
			continue
		}
		if j < len(vs) {
			out = append(out, vs[j])
			j++
		} else {
			out = append(out, c.e.b.nil_())
		}
	}
	if len(out) == 0 {
		return nil
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.e.b.tuple(out)
}

func (c *cctx) seq(i int) *Term { return c.e.seqOf(c.st, c.args[i], types.Typ[types.Uint8]) }

func (c *cctx) bytes(s *Term) *Term { return c.e.mkSlice(s, types.Typ[types.Uint8]) }

// ptrArg: pointer to the object behind a receiver
func (c *cctx) ptrArg(i int) *Term {
	t := c.args[i]
	var el types.Type
	if i == 0 && c.sig.Recv() != nil {
		if p, ok := c.sig.Recv().Type().Underlying().(*types.Pointer); ok {
			el = p.Elem()
		}
	} else if c.sig != nil {
		j := i
		if c.sig.Recv() != nil {
			j--
		}
		if j >= 0 && j < c.sig.Params().Len() {
			if p, ok := c.sig.Params().At(j).Type().Underlying().(*types.Pointer); ok {
				el = p.Elem()
			}
		}
	}
	return c.e.dropNil(c.e.toPtr(t, el))
}

func (c *cctx) bufGet() *Term { return c.e.b.bufseq(c.e.load(c.st, c.ptrArg(0))) }
func (c *cctx) bufSet(s *Term) {
	p := c.ptrArg(0)
	_, t := c.locType(p)
	c.e.store(c.st, p, c.e.b.mkStruct("buf", t, []*Term{s}))
}

func (c *cctx) locType(p *Term) (*Term, types.Type) {
	for p.op == "ite" {
		p = p.args[1]
	}
	o := p.aux.(*Obj)
	return c.e.getPath(c.e.content(c.st, o), o.ctype(), p.args)
}

// structGet: fields of a modelled struct (reader, hash, writer) behind a pointer
func (c *cctx) structGet(p *Term, name string, n int) []*Term {
	v := c.e.b.restrict(c.e.load(c.st, p), c.st.pc)
	if v.op == "ite" {
		out := make([]*Term, n)
		for i := range out {
			j := i
			out[i] = c.e.b.mapIte(v, func(l *Term) *Term { return c.part(l, name, j) })
		}
		return out
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = c.part(v, name, i)
	}
	return out
}

func (c *cctx) part(l *Term, name string, i int) *Term {
	b := c.e.b
	if l.op == "struct" && l.s == name {
		return l.args[i]
	}
	if name == "rdr" {
		return b.rdrPart(l, i)
	}
	if name == "zw" && i == 0 {
		return b.appK("zwdst", 'o', l)
	}
	return b.appK(name+"data", 's', l)
}

func (c *cctx) setStruct(p *Term, name string, args ...*Term) {
	_, t := c.locType(p)
	if name == "rdr" {
		c.e.store(c.st, p, c.e.b.rdrVal(t, args[0], args[1]))
		return
	}
	c.e.store(c.st, p, c.e.b.mk(Term{op: "struct", kind: 'o', s: name, args: args, typ: t}))
}

func (c *cctx) newStruct(t types.Type, name string, args ...*Term) *Term {
	v := c.e.b.mk(Term{op: "struct", kind: 'o', s: name, args: args, typ: t})
	return c.e.ptr(c.e.newObj('v', name, t, v))
}

// writeTo appends s to what is behind a writer value.
func (c *cctx) writeTo(w, s *Term) {
	e, b := c.e, c.e.b
	_, alive := e.branch(c.st, b.restrict(w, c.st.pc), func(st *State, l *Term) (*Term, bool) {
		c2 := *c
		c2.st = st
		if l.isNil() {
			return nil, false
		}
		v := l
		if l.op == "iface" {
			v = l.args[0]
			name := types.TypeString(l.typ, nil)
			switch name {
			case "*bytes.Buffer", "*strings.Builder":
				p := e.dropNil(e.toPtr(v, l.typ.(*types.Pointer).Elem()))
				old := b.bufseq(e.load(st, p))
				e.store(st, p, b.mkStruct("buf", l.typ.(*types.Pointer).Elem(), []*Term{b.cat(old, s)}))
				return nil, true
			case "*compress/zlib.Writer":
				p := e.dropNil(e.toPtr(v, l.typ.(*types.Pointer).Elem()))
				d := c2.structGet(p, "zw", 2)
				c2.setStruct(p, "zw", d[0], b.cat(d[1], s))
				return nil, true
			}
			if f := e.p.ssa.LookupMethod(l.typ, nil, "Write"); f != nil && e.p.inLib[f] {
				_, ok := e.callFn(c.fr, st, f, []*Term{v, e.mkSlice(s, types.Typ[types.Uint8])}, nil, nil)
				return nil, ok
			}
		}
		// unknown writer: its output is a sequence of its own
		key := e.b.appK("out", 'o', e.symPtr(v))
		if v.isApp("nonnil:createfile") {
			key = b.appK("file", 'o', v.args[0])
		}
		o := e.symObj(key, 'v', bufType(e))
		old := b.bufseq(e.content(st, o))
		st.heap[o] = b.mkStruct("buf", o.typ, []*Term{b.cat(old, s)})
		return nil, true
	})
	_ = alive
}

func bufType(e *Eng) types.Type {
	return types.NewStruct(nil, nil)
}

// readAll: everything a reader still gives.
func (c *cctx) readAll(r *Term) *Term {
	e, b := c.e, c.e.b
	v, _ := e.branch(c.st, b.restrict(r, c.st.pc), func(st *State, l *Term) (*Term, bool) {
		c2 := *c
		c2.st = st
		if l.isNil() {
			return nil, false
		}
		if l.op == "iface" {
			name := types.TypeString(l.typ, nil)
			switch name {
			case "*bytes.Buffer":
				p := e.dropNil(e.toPtr(l.args[0], l.typ.(*types.Pointer).Elem()))
				s := b.bufseq(e.load(st, p))
				e.store(st, p, b.mkStruct("buf", l.typ.(*types.Pointer).Elem(), []*Term{b.str("")}))
				return s, true
			case "*bytes.Reader", "*strings.Reader":
				p := e.dropNil(e.toPtr(l.args[0], l.typ.(*types.Pointer).Elem()))
				d := c2.structGet(p, "rdr", 2)
				n := b.seqLen(d[0])
				c2.setStruct(p, "rdr", d[0], n)
				return b.slice(d[0], d[1], n), true
			}
			if l.s == "" && l.args[0].op == "app" && strings.HasPrefix(l.args[0].s, "stream:") {
				return l.args[0].args[0], true
			}
			return b.appK("readall", 's', e.box(st, l.args[0])), true
		}
		if l.isApp("nonnil:stream") {
			return l.args[0], true
		}
		return b.appK("readall", 's', e.box(st, l)), true
	})
	return v
}

// stream: an opaque reader that gives the sequence s
func (c *cctx) stream(s *Term) *Term { return c.e.b.appK("nonnil:stream", 'o', s) }

func (b *TB) fold1(name string, kind byte, args ...*Term) *Term {
	// strict in conditionals
	for i, a := range args {
		if a.op == "ite" {
			return b.mapIte(a, func(x *Term) *Term {
				n := append([]*Term{}, args...)
				n[i] = x
				return b.fold1(name, kind, n...)
			})
		}
	}
	if f, ok := foldable[name]; ok {
		if r := f(b, args); r != nil {
			return r
		}
	}
	return b.appK(name, kind, args...)
}

func strFold1(f func(string) string) func(b *TB, a []*Term) *Term {
	return func(b *TB, a []*Term) *Term {
		if a[0].isStr() {
			return b.str(f(a[0].s))
		}
		return nil
	}
}

var numVerb = regexp.MustCompile(`^[+]?0?\d*$`)

// format expands a format string.
func (c *cctx) format(f *Term, args []*Term) *Term {
	e, b := c.e, c.e.b
	if f.op == "ite" {
		return b.mapIte(f, func(x *Term) *Term { return c.format(x, args) })
	}
	if !f.isStr() {
		return b.appK("sprintf", 's', append([]*Term{f}, e.boxAll(c.st, args)...)...)
	}
	s := f.s
	var out []*Term
	ai := 0
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, b.str(lit))
			lit = ""
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i])
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			lit += s[i:]
			break
		}
		flags, verb := s[i+1:j], s[j]
		i = j
		if verb == '%' {
			lit += "%"
			continue
		}
		flush()
		if ai >= len(args) {
			out = append(out, b.str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		out = append(out, c.formatOne(flags, verb, a))
	}
	flush()
	if ai < len(args) {
		out = append(out, b.appK("extra", 's'))
	}
	return b.cat(out...)
}

func (e *Eng) boxAll(st *State, ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, e.box(st, t))
	}
	return out
}

func (c *cctx) formatOne(flags string, verb byte, a *Term) *Term {
	e, b := c.e, c.e.b
	if a.op == "ite" {
		return b.mapIte(a, func(x *Term) *Term { return c.formatOne(flags, verb, x) })
	}
	v := a
	var t types.Type
	if a.op == "iface" {
		v = a.args[0]
		t = a.typ
	}
	if t == nil {
		return b.appK("fmt:%"+flags+string(verb), 's', e.box(c.st, v))
	}
	// error values and Stringers
	if m := e.p.ssa.LookupMethod; m != nil && (verb == 's' || verb == 'v') {
		for _, n := range []string{"Error", "String"} {
			if obj, _, _ := types.LookupFieldOrMethod(t, false, nil, n); obj != nil {
				if fn, ok := obj.(*types.Func); ok {
					if f := m(t, fn.Pkg(), n); f != nil && e.p.inLib[f] {
						r, alive := e.callFn(c.fr, c.st, f, []*Term{v}, nil, nil)
						if alive && r.kind == 's' {
							return r
						}
					}
				}
			}
		}
	}
	bt, _ := t.Underlying().(*types.Basic)
	isBytes := false
	if sl, ok := t.Underlying().(*types.Slice); ok && isByteT(sl.Elem()) {
		isBytes = true
	}
	return b.mapIte(v, func(v *Term) *Term {
		switch verb {
		case 's', 'v':
			if bt != nil && bt.Info()&types.IsString != 0 && flags == "" {
				return v
			}
			if isBytes && verb == 's' && flags == "" {
				return e.seqOf(c.st, v, types.Typ[types.Uint8])
			}
			if bt != nil && bt.Info()&types.IsInteger != 0 && flags == "" && verb == 'v' {
				return b.itoa(v)
			}
			if bt != nil && bt.Info()&types.IsFloat != 0 && verb == 'v' && flags == "" {
				return b.fmtHole("%v", v)
			}
			if bt != nil && bt.Info()&types.IsBoolean != 0 && verb == 'v' {
				return b.ite(v, b.str("true"), b.str("false"))
			}
		case 'd':
			if bt != nil && bt.Info()&types.IsInteger != 0 {
				if flags == "" {
					return b.itoa(v)
				}
				return b.fmtHole("%"+flags+"d", v)
			}
		case 'f', 'F':
			f := flags
			if strings.HasPrefix(f, "0.") {
				f = f[1:]
			}
			return b.fmtHole("%"+f+"f", v)
		case 'x', 'X', 'q', 'c', 'b', 'o', 'g', 'e', 'U':
			if (verb == 'x' || verb == 'X') && isBytes {
				return b.appK("hex:"+flags+string(verb), 's', e.seqOf(c.st, v, types.Typ[types.Uint8]))
			}
			if (verb == 'x' || verb == 'X') && v.kind == 's' {
				return b.appK("hex:"+flags+string(verb), 's', v)
			}
			if verb == 'c' {
				return b.runeStr(v)
			}
			return b.fmtHole("%"+flags+string(verb), v)
		}
		return b.appK("fmt:%"+flags+string(verb), 's', e.box(c.st, v))
	})
}

func (b *TB) itoa(v *Term) *Term { return b.fmtHole("%d", v) }

// variadic: elements of the ...any argument
func (c *cctx) variadic(i int) ([]*Term, bool) {
	if i >= len(c.args) || c.args[i].isNil() {
		return nil, true
	}
	s := c.e.seqOf(c.st, c.args[i], nil)
	var out []*Term
	for _, g := range segsOf(s) {
		if g.op != "unit" {
			return nil, false
		}
		out = append(out, g.args[0])
	}
	return out, true
}

func (c *cctx) sprintf(fi int) *Term {
	args, ok := c.variadic(fi + 1)
	if !ok {
		return c.e.b.appK("sprintf", 's', c.args[fi], c.e.seqOf(c.st, c.args[fi+1], nil))
	}
	return c.format(c.args[fi], args)
}

func (c *cctx) sprint(i int, ln bool) *Term {
	args, ok := c.variadic(i)
	if !ok {
		return c.e.b.appK("sprint", 's', c.e.seqOf(c.st, c.args[i], nil))
	}
	var out []*Term
	for j, a := range args {
		if ln && j > 0 {
			out = append(out, c.e.b.str(" "))
		} else if j > 0 {
			// Sprint puts a space between two operands when neither is a string
			s1, s2 := args[j-1], a
			if !(s1.op == "iface" && kindOf(s1.typ) == 's') && !(s2.op == "iface" && kindOf(s2.typ) == 's') {
				out = append(out, c.e.b.str(" "))
			}
		}
		out = append(out, c.formatOne("", 'v', a))
	}
	if ln {
		out = append(out, c.e.b.str("\n"))
	}
	return c.e.b.cat(out...)
}

// pure string functions with constant folding
func pureStr(name string, kind byte, resByte bool) func(*cctx) *Term {
	return func(c *cctx) *Term {
		var as []*Term
		for i, a := range c.args {
			if _, ok := paramType(c.sig, i).Underlying().(*types.Slice); ok {
				a = c.e.seqOf(c.st, a, nil)
			} else {
				a = c.e.box(c.st, a)
			}
			as = append(as, a)
		}
		r := c.e.b.fold1(name, kind, as...)
		if resByte {
			return c.result(c.bytes(r))
		}
		return c.result(r)
	}
}

func paramType(sig *types.Signature, i int) types.Type {
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	return sig.Params().At(i).Type()
}

func init() {
	extModels = map[string]func(*cctx) *Term{}
	m := extModels
	errv := func(c *cctx) *Term { return c.e.b.appK("error", 'o') }
	m["errors.New"] = errv
	m["fmt.Errorf"] = errv
	none := func(c *cctx) *Term { return c.result() }
	m["log.Fatalf"] = func(c *cctx) *Term { return deadTerm }
	m["log.Panicf"] = m["log.Fatalf"]
	m["os.Exit"] = m["log.Fatalf"]
	zeros := func(c *cctx) *Term {
		var out []*Term
		for i := 0; i < c.sig.Results().Len(); i++ {
			out = append(out, zeroTerm(c.e.b, c.typ(i)))
		}
		if len(out) == 0 {
			return nil
		}
		if len(out) == 1 {
			return out[0]
		}
		return c.e.b.tuple(out)
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "log.Printf", "log.Println", "math/rand.Seed"} {
		m[n] = zeros
	}
	m["fmt.Sprintf"] = func(c *cctx) *Term { return c.sprintf(0) }
	m["fmt.Sprint"] = func(c *cctx) *Term { return c.sprint(0, false) }
	m["fmt.Sprintln"] = func(c *cctx) *Term { return c.sprint(0, true) }
	m["fmt.Fprintf"] = func(c *cctx) *Term {
		s := c.sprintf(1)
		c.writeTo(c.args[0], s)
		return c.result(c.e.b.seqLen(s))
	}
	m["fmt.Fprint"] = func(c *cctx) *Term {
		s := c.sprint(1, false)
		c.writeTo(c.args[0], s)
		return c.result(c.e.b.seqLen(s))
	}
	m["fmt.Fprintln"] = func(c *cctx) *Term {
		s := c.sprint(1, true)
		c.writeTo(c.args[0], s)
		return c.result(c.e.b.seqLen(s))
	}
	m["io.WriteString"] = func(c *cctx) *Term {
		c.writeTo(c.args[0], c.args[1])
		return c.result(c.e.b.seqLen(c.args[1]))
	}
	m["invoke:Write"] = func(c *cctx) *Term {
		s := c.seq(1)
		c.writeTo(c.args[0], s)
		return c.result(c.e.b.seqLen(s))
	}
	m["invoke:WriteString"] = func(c *cctx) *Term {
		c.writeTo(c.args[0], c.args[1])
		return c.result(c.e.b.seqLen(c.args[1]))
	}
	m["invoke:Close"] = func(c *cctx) *Term { return c.result() }
	m["(*os.File).Close"] = none

	for _, ty := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		m[ty+".WriteString"] = func(c *cctx) *Term {
			c.bufSet(c.e.b.cat(c.bufGet(), c.args[1]))
			return c.result(c.e.b.seqLen(c.args[1]))
		}
		m[ty+".Write"] = func(c *cctx) *Term {
			s := c.seq(1)
			c.bufSet(c.e.b.cat(c.bufGet(), s))
			return c.result(c.e.b.seqLen(s))
		}
		m[ty+".WriteByte"] = func(c *cctx) *Term {
			c.bufSet(c.e.b.cat(c.bufGet(), c.e.b.byteUnit(c.args[1])))
			return c.result()
		}
		m[ty+".WriteRune"] = func(c *cctx) *Term {
			s := c.e.b.runeStr(c.args[1])
			c.bufSet(c.e.b.cat(c.bufGet(), s))
			return c.result(c.e.b.seqLen(s))
		}
		m[ty+".String"] = func(c *cctx) *Term { return c.bufGet() }
		m[ty+".Len"] = func(c *cctx) *Term { return c.e.b.seqLen(c.bufGet()) }
		m[ty+".Reset"] = func(c *cctx) *Term { c.bufSet(c.e.b.str("")); return nil }
		m[ty+".Grow"] = func(c *cctx) *Term { return nil }
	}
	m["(*bytes.Buffer).Bytes"] = func(c *cctx) *Term { return c.bytes(c.bufGet()) }
	m["(*bytes.Buffer).Truncate"] = func(c *cctx) *Term {
		c.bufSet(c.e.b.slice(c.bufGet(), c.e.b.int(0), c.args[1]))
		return nil
	}
	m["(*bytes.Buffer).WriteTo"] = func(c *cctx) *Term {
		s := c.bufGet()
		c.writeTo(c.args[1], s)
		c.bufSet(c.e.b.str(""))
		return c.result(c.e.b.seqLen(s))
	}
	m["(*bytes.Buffer).ReadFrom"] = func(c *cctx) *Term {
		s := c.readAll(c.args[1])
		c.bufSet(c.e.b.cat(c.bufGet(), s))
		return c.result(c.e.b.seqLen(s))
	}
	m["(*bytes.Buffer).Read"] = func(c *cctx) *Term {
		s := c.bufGet()
		n := c.e.lenOf(c.st, c.args[1])
		c.fill(c.args[1], c.e.b.slice(s, c.e.b.int(0), n))
		c.bufSet(c.e.b.slice(s, n, c.e.b.seqLen(s)))
		return c.result(n)
	}
	newBuf := func(c *cctx) *Term {
		t := c.typ(0).(*types.Pointer).Elem()
		s := c.args[0]
		if s.kind != 's' {
			s = c.seq(0)
		}
		return c.newStruct2(t, s)
	}
	m["bytes.NewBuffer"] = newBuf
	m["bytes.NewBufferString"] = newBuf
	newRdr := func(c *cctx) *Term {
		s := c.args[0]
		if s.kind != 's' {
			s = c.seq(0)
		}
		return c.newStruct(c.typ(0).(*types.Pointer).Elem(), "rdr", s, c.e.b.int(0))
	}
	m["bytes.NewReader"] = newRdr
	m["strings.NewReader"] = newRdr
	for _, ty := range []string{"(*bytes.Reader)", "(*strings.Reader)"} {
		m[ty+".Read"] = func(c *cctx) *Term {
			p := c.ptrArg(0)
			d := c.structGet(p, "rdr", 2)
			n := c.e.lenOf(c.st, c.args[1])
			end := c.e.b.add(d[1], n)
			c.fill(c.args[1], c.e.b.slice(d[0], d[1], end))
			c.setStruct(p, "rdr", d[0], end)
			return c.result(n)
		}
		m[ty+".ReadByte"] = func(c *cctx) *Term {
			p := c.ptrArg(0)
			d := c.structGet(p, "rdr", 2)
			c.setStruct(p, "rdr", d[0], c.e.b.add(d[1], c.e.b.int(1)))
			return c.result(c.e.b.idx(d[0], d[1], types.Typ[types.Uint8]))
		}
		m[ty+".Seek"] = func(c *cctx) *Term {
			p := c.ptrArg(0)
			d := c.structGet(p, "rdr", 2)
			w, ok := c.args[2].intVal()
			if !ok {
				giveUp("Seek with variable whence")
			}
			b := c.e.b
			np := c.args[1]
			switch w {
			case 1:
				np = b.add(d[1], np)
			case 2:
				np = b.add(b.seqLen(d[0]), np)
			}
			c.setStruct(p, "rdr", d[0], np)
			return c.result(np)
		}
		m[ty+".Len"] = func(c *cctx) *Term {
			d := c.structGet(c.ptrArg(0), "rdr", 2)
			return c.e.b.sub(c.e.b.seqLen(d[0]), d[1])
		}
		m[ty+".Size"] = func(c *cctx) *Term {
			return c.e.b.seqLen(c.structGet(c.ptrArg(0), "rdr", 2)[0])
		}
	}
	readAll := func(c *cctx) *Term { return c.result(c.bytes(c.readAll(c.args[0]))) }
	m["io.ReadAll"] = readAll
	m["io/ioutil.ReadAll"] = readAll
	m["io.Copy"] = func(c *cctx) *Term {
		s := c.readAll(c.args[1])
		c.writeTo(c.args[0], s)
		return c.result(c.e.b.seqLen(s))
	}
	m["io.ReadFull"] = func(c *cctx) *Term {
		n := c.e.lenOf(c.st, c.args[1])
		s := c.readN(c.args[0], n)
		c.fill(c.args[1], s)
		return c.result(n)
	}
	m["invoke:Read"] = func(c *cctx) *Term {
		n := c.e.lenOf(c.st, c.args[1])
		s := c.readN(c.args[0], n)
		c.fill(c.args[1], s)
		return c.result(n)
	}
	m["invoke:Seek"] = func(c *cctx) *Term {
		w, ok := c.args[2].intVal()
		if !ok {
			return nil
		}
		b := c.e.b
		o := c.symReader(c.args[0])
		d := c.structGet(c.e.ptr(o), "rdr", 2)
		np := c.args[1]
		switch w {
		case 1:
			np = b.add(d[1], np)
		case 2:
			np = b.add(b.seqLen(d[0]), np)
		}
		c.setStruct(c.e.ptr(o), "rdr", d[0], np)
		return c.result(np)
	}
	readFile := func(c *cctx) *Term { return c.result(c.bytes(c.e.b.appK("file", 's', c.args[0]))) }
	m["io/ioutil.ReadFile"] = readFile
	m["os.ReadFile"] = readFile
	writeFile := func(c *cctx) *Term {
		e, b := c.e, c.e.b
		o := e.symObj(b.appK("file", 'o', c.args[0]), 'v', bufType(e))
		c.st.heap[o] = b.mkStruct("buf", o.typ, []*Term{c.seq(1)})
		return c.result()
	}
	m["io/ioutil.WriteFile"] = writeFile
	m["os.WriteFile"] = writeFile
	m["os.Create"] = func(c *cctx) *Term {
		e, b := c.e, c.e.b
		o := e.symObj(b.appK("file", 'o', c.args[0]), 'v', bufType(e))
		c.st.heap[o] = b.mkStruct("buf", o.typ, []*Term{b.str("")})
		return c.result(b.app("nonnil:createfile", c.typ(0), c.args[0]))
	}
	fileWrite := func(c *cctx) *Term {
		s := c.args[1]
		if s.kind != 's' {
			s = c.seq(1)
		}
		c.writeTo(c.args[0], s)
		return c.result(c.e.b.seqLen(s))
	}
	m["(*os.File).Write"] = fileWrite
	m["(*os.File).WriteString"] = fileWrite

	zw := func(c *cctx) *Term {
		t := c.typ(0).(*types.Pointer).Elem()
		p := c.newStruct(t, "zw", c.args[0], c.e.b.str(""))
		return c.result(p)
	}
	m["compress/zlib.NewWriter"] = zw
	m["compress/zlib.NewWriterLevel"] = zw
	m["(*compress/zlib.Writer).Write"] = func(c *cctx) *Term {
		p := c.ptrArg(0)
		d := c.structGet(p, "zw", 2)
		s := c.seq(1)
		c.setStruct(p, "zw", d[0], c.e.b.cat(d[1], s))
		return c.result(c.e.b.seqLen(s))
	}
	m["(*compress/zlib.Writer).Close"] = func(c *cctx) *Term {
		p := c.ptrArg(0)
		d := c.structGet(p, "zw", 2)
		b := c.e.b
		if d[0].isApp("closed") {
			return c.result()
		}
		c.writeTo(d[0], b.fold1("zlib", 's', d[1]))
		c.setStruct(p, "zw", b.appK("closed", 'o'), b.str(""))
		return c.result()
	}
	m["(*compress/zlib.Writer).Flush"] = none
	m["compress/zlib.NewReader"] = func(c *cctx) *Term {
		s := c.readAll(c.args[0])
		return c.result(c.stream(c.e.b.fold1("unzlib", 's', s)))
	}
	foldable["unzlib"] = func(b *TB, a []*Term) *Term {
		if a[0].isApp("zlib") {
			return a[0].args[0]
		}
		return nil
	}

	m["crypto/md5.Sum"] = func(c *cctx) *Term { return c.e.b.fold1("md5", 's', c.seq(0)) }
	m["crypto/md5.New"] = func(c *cctx) *Term {
		t := types.NewStruct(nil, nil)
		v := c.e.b.mk(Term{op: "struct", kind: 'o', s: "hash", args: []*Term{c.e.b.str("")}, typ: t})
		p := c.e.ptr(c.e.newObj('v', "md5", t, v))
		return c.e.b.mk(Term{op: "app", kind: 'o', s: "nonnil:md5", args: []*Term{p}})
	}
	hashOf := func(c *cctx) *Term {
		if r := c.args[0]; r.isApp("nonnil:md5") {
			return r.args[0]
		}
		return nil
	}
	wr := m["invoke:Write"]
	m["invoke:Write"] = func(c *cctx) *Term {
		if p := hashOf(c); p != nil {
			s := c.seq(1)
			c.setStruct(p, "hash", c.e.b.cat(c.structGet(p, "hash", 1)[0], s))
			return c.result(c.e.b.seqLen(s))
		}
		return wr(c)
	}
	m["invoke:Sum"] = func(c *cctx) *Term {
		if p := hashOf(c); p != nil {
			b := c.e.b
			return c.bytes(b.cat(c.seq(1), b.fold1("md5", 's', c.structGet(p, "hash", 1)[0])))
		}
		return nil
	}
	m["crypto/rc4.NewCipher"] = func(c *cctx) *Term {
		t := c.typ(0).(*types.Pointer).Elem()
		b := c.e.b
		return c.result(c.newStruct(t, "rc4", c.seq(0), b.int(0)))
	}
	m["(*crypto/rc4.Cipher).XORKeyStream"] = func(c *cctx) *Term {
		b := c.e.b
		p := c.ptrArg(0)
		d := c.structGet(p, "rc4", 2)
		src := c.seq(2)
		var r *Term
		if d[1] == b.int(0) {
			r = b.fold1("rc4", 's', d[0], src)
		} else {
			r = b.fold1("rc4at", 's', d[0], d[1], src)
		}
		c.setStruct(p, "rc4", d[0], b.add(d[1], b.seqLen(src)))
		// dst must be at least as long as src
		dst := c.e.dropNil(c.e.toSlice(c.args[1], types.Typ[types.Uint8]))
		if dst.op != "slice" {
			giveUp("XORKeyStream target")
		}
		cont := c.e.load(c.st, dst.args[0])
		end := b.add(dst.args[1], b.seqLen(src))
		if b.sub(dst.args[2], b.seqLen(src)) == b.int(0) {
			end = b.add(dst.args[1], dst.args[2])
		}
		c.e.store(c.st, dst.args[0], b.cat(b.slice(cont, b.int(0), dst.args[1]), r, b.slice(cont, end, b.seqLen(cont))))
		return nil
	}
	m["encoding/base64.NewDecoder"] = func(c *cctx) *Term {
		s := c.readAll(c.args[1])
		return c.result(c.stream(c.e.b.fold1("base64dec", 's', s)))
	}
	m["(*encoding/base64.Encoding).DecodeString"] = func(c *cctx) *Term {
		return c.result(c.bytes(c.e.b.fold1("base64dec", 's', c.args[1])))
	}
	m["encoding/hex.EncodeToString"] = func(c *cctx) *Term { return c.e.b.appK("hex:x", 's', c.seq(0)) }
	m["(*encoding/base64.Encoding).EncodeToString"] = func(c *cctx) *Term {
		return c.e.b.fold1("base64enc", 's', c.seq(1))
	}
	foldable["base64dec"] = func(b *TB, a []*Term) *Term {
		if a[0].isApp("base64enc") {
			return a[0].args[0]
		}
		return nil
	}
	for i, en := range []string{"encoding/binary.bigEndian", "encoding/binary.littleEndian"} {
		big := i == 0
		for _, w := range []int{2, 4, 8} {
			w := w
			n := strconv.Itoa(w * 8)
			m["("+en+").Uint"+n] = func(c *cctx) *Term {
				b := c.e.b
				s := c.seq(1)
				r := b.int(0)
				for j := 0; j < w; j++ {
					k := j
					if !big {
						k = w - 1 - j
					}
					r = b.add(b.scale(r, b.int(256).r), b.idx(s, b.int(int64(k)), types.Typ[types.Uint8]))
				}
				return r
			}
			m["("+en+").PutUint"+n] = func(c *cctx) *Term {
				b := c.e.b
				var parts []*Term
				for j := 0; j < w; j++ {
					k := w - 1 - j
					if !big {
						k = j
					}
					parts = append(parts, b.byteUnit(b.convInt(b.shr(c.args[2], b.int(int64(8*k))), types.Typ[types.Uint8])))
				}
				d := c.e.dropNil(c.e.toSlice(c.args[1], types.Typ[types.Uint8]))
				if d.op != "slice" {
					giveUp("PutUint target")
				}
				cont := c.e.load(c.st, d.args[0])
				end := b.add(d.args[1], b.int(int64(w)))
				c.e.store(c.st, d.args[0], b.cat(append([]*Term{b.slice(cont, b.int(0), d.args[1])}, append(parts, b.slice(cont, end, b.seqLen(cont)))...)...))
				return nil
			}
			m["("+en+").AppendUint"+n] = func(c *cctx) *Term {
				b := c.e.b
				parts := []*Term{c.seq(1)}
				for j := 0; j < w; j++ {
					k := w - 1 - j
					if !big {
						k = j
					}
					parts = append(parts, b.byteUnit(b.convInt(b.shr(c.args[2], b.int(int64(8*k))), types.Typ[types.Uint8])))
				}
				return c.bytes(b.cat(parts...))
			}
		}
	}

	m["strconv.Itoa"] = func(c *cctx) *Term { return c.e.b.itoa(c.args[0]) }
	m["strconv.FormatInt"] = func(c *cctx) *Term {
		if v, ok := c.args[1].intVal(); ok && v == 10 {
			return c.e.b.itoa(c.args[0])
		}
		return c.e.b.fold1("formatint", 's', c.args...)
	}
	m["strconv.FormatUint"] = m["strconv.FormatInt"]
	foldable["atoi"] = func(b *TB, a []*Term) *Term {
		if a[0].isApp("fmt:%d") {
			return a[0].args[0]
		}
		if a[0].isStr() {
			if v, err := strconv.Atoi(a[0].s); err == nil {
				return b.int(int64(v))
			}
		}
		return nil
	}
	m["strconv.Atoi"] = func(c *cctx) *Term {
		return c.e.b.tuple([]*Term{c.e.b.fold1("atoi", 'n', c.args[0]), c.e.b.fold1("atoierr", 'o', c.args[0])})
	}
	foldable["atoierr"] = func(b *TB, a []*Term) *Term {
		if a[0].isApp("fmt:%d") {
			return b.nil_()
		}
		if a[0].isStr() {
			if _, err := strconv.Atoi(a[0].s); err == nil {
				return b.nil_()
			}
			return b.appK("error", 'o')
		}
		return nil
	}
	m["strconv.ParseInt"] = func(c *cctx) *Term {
		if v, ok := c.args[1].intVal(); ok && v == 10 {
			return c.result(c.typed(c.e.b.fold1("atoi", 'n', c.args[0])))
		}
		return c.result(c.typed(c.e.b.fold1("parseint", 'n', c.args[0], c.args[1])))
	}
	m["strconv.ParseFloat"] = func(c *cctx) *Term { return c.result(c.e.b.fold1("parsefloat", 'n', c.args[0])) }

	str1 := map[string]func(string) string{"TrimSpace": strings.TrimSpace, "ToUpper": strings.ToUpper, "ToLower": strings.ToLower}
	for n, f := range str1 {
		foldable[n] = strFold1(f)
		m["strings."+n] = pureStr(n, 's', false)
		m["bytes."+n] = pureStr(n, 's', true)
	}
	type s2 struct {
		kind byte
		f    func(b *TB, x, y string) *Term
	}
	str2 := map[string]s2{
		"Contains":   {'b', func(b *TB, x, y string) *Term { return b.bool(strings.Contains(x, y)) }},
		"HasPrefix":  {'b', func(b *TB, x, y string) *Term { return b.bool(strings.HasPrefix(x, y)) }},
		"HasSuffix":  {'b', func(b *TB, x, y string) *Term { return b.bool(strings.HasSuffix(x, y)) }},
		"Index":      {'n', func(b *TB, x, y string) *Term { return b.int(int64(strings.Index(x, y))) }},
		"LastIndex":  {'n', func(b *TB, x, y string) *Term { return b.int(int64(strings.LastIndex(x, y))) }},
		"TrimPrefix": {'s', func(b *TB, x, y string) *Term { return b.str(strings.TrimPrefix(x, y)) }},
		"TrimSuffix": {'s', func(b *TB, x, y string) *Term { return b.str(strings.TrimSuffix(x, y)) }},
		"TrimLeft":   {'s', func(b *TB, x, y string) *Term { return b.str(strings.TrimLeft(x, y)) }},
		"TrimRight":  {'s', func(b *TB, x, y string) *Term { return b.str(strings.TrimRight(x, y)) }},
		"Trim":       {'s', func(b *TB, x, y string) *Term { return b.str(strings.Trim(x, y)) }},
	}
	for n, d := range str2 {
		n, d := n, d
		foldable[n] = func(b *TB, a []*Term) *Term {
			if a[0].isStr() && a[1].isStr() {
				return d.f(b, a[0].s, a[1].s)
			}
			if n == "HasPrefix" && a[1].isStr() {
				if f := firstStr(a[0]); f != "" {
					if len(f) >= len(a[1].s) {
						return b.bool(strings.HasPrefix(f, a[1].s))
					}
					if !strings.HasPrefix(a[1].s, f) {
						return b.F()
					}
				}
			}
			return nil
		}
		m["strings."+n] = pureStr(n, d.kind, false)
		m["bytes."+n] = pureStr(n, d.kind, d.kind == 's')
	}
	foldable["Replace"] = func(b *TB, a []*Term) *Term {
		if a[0].isStr() && a[1].isStr() && a[2].isStr() {
			return b.str(strings.ReplaceAll(a[0].s, a[1].s, a[2].s))
		}
		return nil
	}
	m["strings.Replace"] = func(c *cctx) *Term {
		if v, ok := c.args[3].intVal(); ok && v < 0 {
			return c.e.b.fold1("Replace", 's', c.args[0], c.args[1], c.args[2])
		}
		return c.e.b.fold1("ReplaceN", 's', c.args...)
	}
	m["strings.ReplaceAll"] = func(c *cctx) *Term { return c.e.b.fold1("Replace", 's', c.args...) }
	m["bytes.Equal"] = func(c *cctx) *Term { return c.e.b.eq(c.seq(0), c.seq(1)) }
	m["bytes.IndexByte"] = func(c *cctx) *Term {
		return c.e.b.fold1("Index", 'n', c.seq(0), c.e.b.byteUnit(c.args[1]))
	}
	m["strings.IndexByte"] = func(c *cctx) *Term {
		return c.e.b.fold1("Index", 'n', c.args[0], c.e.b.byteUnit(c.args[1]))
	}
	strs := func(c *cctx, s *Term) *Term { return c.e.mkSlice(s, types.Typ[types.String]) }
	m["strings.Split"] = func(c *cctx) *Term { return strs(c, c.e.b.fold1("split", 's', c.args...)) }
	m["strings.Fields"] = func(c *cctx) *Term { return strs(c, c.e.b.fold1("fields", 's', c.args...)) }
	m["strings.Join"] = func(c *cctx) *Term {
		return c.e.b.fold1("join", 's', c.e.seqOf(c.st, c.args[0], nil), c.args[1])
	}
	m["strings.Repeat"] = func(c *cctx) *Term {
		k := c.e.b.freshSym("κ", types.Typ[types.Int])
		return c.e.b.star(c.args[1], c.args[0], k)
	}
	m["bytes.Repeat"] = func(c *cctx) *Term {
		k := c.e.b.freshSym("κ", types.Typ[types.Int])
		return c.bytes(c.e.b.star(c.args[1], c.seq(0), k))
	}
	sorted := func(name string) func(*cctx) *Term {
		return func(c *cctx) *Term {
			s := c.e.dropNil(c.e.toSlice(c.args[0], nil))
			if s.isNil() {
				return nil
			}
			if s.op != "slice" {
				giveUp("sort of one of several slices")
			}
			b := c.e.b
			cont := c.e.load(c.st, s.args[0])
			end := b.add(s.args[1], s.args[2])
			srt := b.fold1("sorted", 's', b.slice(cont, s.args[1], end))
			if srt.isApp("sorted") && srt.typ == nil {
				srt.typ = types.NewArray(elemType(c.sig.Params().At(0).Type()), 0)
			}
			c.e.store(c.st, s.args[0], b.cat(b.slice(cont, b.int(0), s.args[1]), srt, b.slice(cont, end, b.seqLen(cont))))
			return nil
		}
	}
	m["sort.Strings"] = sorted("sorted")
	m["sort.Ints"] = sorted("sorted")
	m["math.Floor"] = func(c *cctx) *Term { return c.e.b.fold1("floor", 'n', c.args...) }
	m["math.Ceil"] = func(c *cctx) *Term { return c.e.b.fold1("ceil", 'n', c.args...) }
	m["math.Abs"] = func(c *cctx) *Term {
		b := c.e.b
		return b.ite(b.lt0(c.args[0]), b.neg(c.args[0]), c.args[0])
	}
	m["math.Round"] = func(c *cctx) *Term { return c.e.b.fold1("round", 'n', c.args...) }
	m["math.Max"] = func(c *cctx) *Term {
		b := c.e.b
		return b.ite(b.lt0(b.sub(c.args[0], c.args[1])), c.args[1], c.args[0])
	}
	m["math.Min"] = func(c *cctx) *Term {
		b := c.e.b
		return b.ite(b.lt0(b.sub(c.args[1], c.args[0])), c.args[1], c.args[0])
	}
	m["errors.Is"] = func(c *cctx) *Term { return c.e.b.eq(c.args[0], c.args[1]) }
	m["os.IsNotExist"] = func(c *cctx) *Term { return c.e.b.F() }
	m["os.Open"] = func(c *cctx) *Term { return c.result(c.e.b.app("nonnil:openfile", c.typ(0), c.args[0])) }
	bigGet := func(c *cctx) *Term {
		v := c.e.load(c.st, c.ptrArg(0))
		if v.op != "struct" || v.s != "big" {
			giveUp("big.Int")
		}
		return v.args[0]
	}
	m["math/big.NewInt"] = func(c *cctx) *Term {
		return c.newStruct(c.typ(0).(*types.Pointer).Elem(), "big", c.args[0])
	}
	m["(*math/big.Int).SetBytes"] = func(c *cctx) *Term {
		b, s := c.e.b, c.seq(1)
		v := b.fold1("bigval", 'n', s)
		if n := b.seqLen(s); n.op == "num" && n.r.IsInt() && n.r.Num().Int64() <= 8 {
			v = b.int(0)
			for i := int64(0); i < n.r.Num().Int64(); i++ {
				v = b.add(b.mul(v, b.int(256)), b.idx(s, b.int(i), types.Typ[types.Byte]))
			}
		}
		c.setStruct(c.ptrArg(0), "big", v)
		return c.args[0]
	}
	m["(*math/big.Int).Bytes"] = func(c *cctx) *Term { return c.bytes(c.e.b.fold1("bigbytes", 's', bigGet(c))) }
	m["(*math/big.Int).Uint64"] = bigGet
	m["(*math/big.Int).Int64"] = bigGet
	m["time.Now"] = func(c *cctx) *Term { return c.e.b.sym("now", c.typ(0)) }
	m["image.Decode"] = func(c *cctx) *Term {
		s := c.readAll(c.args[0])
		return c.result(c.e.b.app("nonnil:imgdecode", c.typ(0), s), c.e.b.appK("imgformat", 's', s))
	}
	m["image.DecodeConfig"] = func(c *cctx) *Term {
		s := c.readAll(c.args[0])
		return c.result(c.e.b.app("imgconfig", c.typ(0), s), c.e.b.appK("imgformat", 's', s))
	}
}

func (c *cctx) typed(t *Term) *Term { return t }

func (c *cctx) newStruct2(t types.Type, s *Term) *Term {
	v := c.e.b.mkStruct("buf", t, []*Term{s})
	return c.e.ptr(c.e.newObj('v', "buf", t, v))
}

// fill stores s into a byte slice of the same length.
func (c *cctx) fill(dst, s *Term) {
	e, b := c.e, c.e.b
	d := e.dropNil(e.toSlice(dst, types.Typ[types.Uint8]))
	if d.isNil() {
		return
	}
	if d.op != "slice" {
		giveUp("read into one of several slices")
	}
	cont := e.load(c.st, d.args[0])
	n := b.seqLen(cont)
	end := b.add(d.args[1], d.args[2])
	e.store(c.st, d.args[0], b.cat(b.slice(cont, b.int(0), d.args[1]), s, b.slice(cont, end, n)))
}

func (c *cctx) symReader(r *Term) *Obj {
	e := c.e
	return e.symObj(e.b.appK("in", 'o', e.symPtr(r)), 'v', bufType(e))
}

// readN: the next n bytes of a reader.
func (c *cctx) readN(r, n *Term) *Term {
	e, b := c.e, c.e.b
	v, _ := e.branch(c.st, b.restrict(r, c.st.pc), func(st *State, l *Term) (*Term, bool) {
		c2 := *c
		c2.st = st
		if l.isNil() {
			return nil, false
		}
		var p *Term
		if l.op == "iface" {
			switch types.TypeString(l.typ, nil) {
			case "*bytes.Buffer":
				q := e.dropNil(e.toPtr(l.args[0], l.typ.(*types.Pointer).Elem()))
				s := b.bufseq(e.load(st, q))
				e.store(st, q, b.mkStruct("buf", l.typ.(*types.Pointer).Elem(), []*Term{b.slice(s, n, b.seqLen(s))}))
				return b.slice(s, b.int(0), n), true
			case "*bytes.Reader", "*strings.Reader":
				p = e.dropNil(e.toPtr(l.args[0], l.typ.(*types.Pointer).Elem()))
			}
		}
		if p == nil {
			p = e.ptr(c2.symReader(l))
		}
		d := c2.structGet(p, "rdr", 2)
		end := b.add(d[1], n)
		c2.setStruct(p, "rdr", d[0], end)
		return b.slice(d[0], d[1], end), true
	})
	if v == nil {
		return b.str("")
	}
	return v
}

var _ = fmt.Sprint
