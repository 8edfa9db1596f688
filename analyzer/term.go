package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Term is a hash-consed node of the value graph: two values are the same term iff the analysis knows them equal.
//
//	num bool str nil sym app   leaves and uninterpreted applications (app: s is the function, args its arguments)
//	poly mul                   polynomials with rational coefficients over atomic terms
//	cat unit star sub          sequences (strings and slice contents): concatenation, one element, repetition, part
//	ite                        conditional; conditions are ordered like in a decision diagram
//	struct tuple ptr slice iface clo mapv
type Term struct {
	id   int
	op   string
	kind byte // n number, b bool, s sequence, o other
	s    string
	r    *big.Rat
	args []*Term
	cs   []*big.Rat // poly coefficients
	aux  any
	typ  types.Type
	lvl  int // highest binder level inside
	size int
}

type TB struct {
	tab      map[string]*Term
	n, calls int
	deadline time.Time
	memo     map[string]*Term
	refine   bool    // parts of sequences are worked out again, with the current facts
	facts    []*Term // linear facts (poly >= 0) currently assumed
	fresh    int
	ops      int
	eqcls    map[*Term]*Term

	ptrHook  func(o *Obj, key *Term, path []*Term) *Term
	elemHook func(t *Term) types.Type
}

func newTB() *TB {
	return &TB{tab: map[string]*Term{}, memo: map[string]*Term{}, eqcls: map[*Term]*Term{}}
}

type undecided struct{ msg string }

func giveUp(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

func (b *TB) mk(t Term) *Term {
	if b.calls++; b.calls&4095 == 0 && !b.deadline.IsZero() && time.Now().After(b.deadline) {
		giveUp("the time for one function is used up")
	}
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteByte(t.kind)
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(len(t.s)))
	sb.WriteByte(':')
	sb.WriteString(t.s)
	if t.r != nil {
		sb.WriteByte('|')
		sb.WriteString(t.r.RatString())
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
		if t.cs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.cs[i].RatString())
		}
	}
	if t.aux != nil {
		sb.WriteByte('|')
		fmt.Fprintf(&sb, "%p", t.aux)
	}
	k := sb.String()
	if x, ok := b.tab[k]; ok {
		return x
	}
	b.ops++
	if b.ops > 6000000 {
		giveUp("the value graph grows without bound")
	}
	n := new(Term)
	*n = t
	n.id = b.n
	b.n++
	n.size = 1
	for _, a := range t.args {
		if a.lvl > n.lvl {
			n.lvl = a.lvl
		}
		n.size += a.size
		if n.size > 1<<30 {
			n.size = 1 << 30
		}
	}
	b.tab[k] = n
	return n
}

// ---- constructors

func (b *TB) num(r *big.Rat) *Term { return b.mk(Term{op: "num", kind: 'n', r: r}) }
func (b *TB) int(i int64) *Term    { return b.num(new(big.Rat).SetInt64(i)) }
func (b *TB) str(s string) *Term   { return b.mk(Term{op: "str", kind: 's', s: s}) }
func (b *TB) bool(v bool) *Term {
	if v {
		return b.mk(Term{op: "bool", kind: 'b', s: "true"})
	}
	return b.mk(Term{op: "bool", kind: 'b', s: "false"})
}
func (b *TB) T() *Term    { return b.bool(true) }
func (b *TB) F() *Term    { return b.bool(false) }
func (b *TB) nil_() *Term { return b.mk(Term{op: "nil", kind: 'o'}) }

func kindOf(t types.Type) byte {
	if t == nil {
		return 'o'
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return 'b'
		case u.Info()&types.IsNumeric != 0:
			return 'n'
		case u.Info()&types.IsString != 0:
			return 's'
		}
	case *types.Array:
		return 's'
	}
	return 'o'
}

func (b *TB) sym(name string, typ types.Type) *Term {
	t := b.mk(Term{op: "sym", kind: kindOf(typ), s: name})
	if t.typ == nil {
		t.typ = typ
	}
	return t
}
func (b *TB) symK(name string, kind byte) *Term { return b.mk(Term{op: "sym", kind: kind, s: name}) }
func (b *TB) freshSym(pfx string, typ types.Type) *Term {
	b.fresh++
	return b.sym(fmt.Sprintf("%s'%d", pfx, b.fresh), typ)
}
func (b *TB) app(f string, typ types.Type, args ...*Term) *Term {
	t := b.mk(Term{op: "app", kind: kindOf(typ), s: f, args: args})
	if t.typ == nil {
		t.typ = typ
	}
	return t
}
func (b *TB) appK(f string, kind byte, args ...*Term) *Term {
	return b.mk(Term{op: "app", kind: kind, s: f, args: args})
}

func (t *Term) isNum() bool   { return t.op == "num" }
func (t *Term) isTrue() bool  { return t.op == "bool" && t.s == "true" }
func (t *Term) isFalse() bool { return t.op == "bool" && t.s == "false" }
func (t *Term) isStr() bool   { return t.op == "str" }
func (t *Term) isNil() bool   { return t.op == "nil" }
func (t *Term) isApp(f string) bool {
	return t.op == "app" && t.s == f
}
func (t *Term) intVal() (int64, bool) {
	if t.op == "num" && t.r.IsInt() && t.r.Num().IsInt64() {
		return t.r.Num().Int64(), true
	}
	return 0, false
}

// ---- conditionals

func (b *TB) isAtom(c *Term) bool { return c.kind == 'b' && c.op != "ite" && c.op != "bool" }

func topAtom(t *Term) *Term {
	if t.op == "ite" {
		return t.args[0]
	}
	return nil
}

func minAtom(ts ...*Term) *Term {
	var m *Term
	for _, t := range ts {
		if a := topAtom(t); a != nil && (m == nil || a.id < m.id) {
			m = a
		}
	}
	return m
}

func cof(t, atom *Term, v bool) *Term {
	if t.op == "ite" && t.args[0] == atom {
		if v {
			return t.args[1]
		}
		return t.args[2]
	}
	return t
}

// raw node: atom c, a and b have larger top atoms
func (b *TB) node(c, x, y *Term) *Term {
	if x == y {
		return x
	}
	if c.kind == 'b' && x.isTrue() && y.isFalse() {
		return c
	}
	k := x.kind
	if y.kind != k {
		if k == 'o' && x.isNil() {
			k = y.kind
		} else if y.kind == 'o' && y.isNil() {
			// keep k
		} else {
			k = 'o'
		}
	}
	if x.op == "struct" && y.op == "struct" && x.s == y.s && len(x.args) == len(y.args) {
		args := make([]*Term, len(x.args))
		for i := range args {
			args[i] = b.ite(c, x.args[i], y.args[i])
		}
		return b.mkStruct(x.s, x.typ, args)
	}
	if (x.op == "struct") != (y.op == "struct") {
		sx, sy := x, y
		if y.op == "struct" {
			sx, sy = y, x
		}
		if sy.op == "app" || sy.op == "sym" {
			if ex := b.expandLike(sx, sy); ex != nil {
				args := make([]*Term, len(ex))
				for i := range args {
					if sx == x {
						args[i] = b.ite(c, x.args[i], ex[i])
					} else {
						args[i] = b.ite(c, ex[i], y.args[i])
					}
				}
				return b.mkStruct(sx.s, sx.typ, args)
			}
		}
	}
	if x.op == "tuple" && y.op == "tuple" && len(x.args) == len(y.args) {
		args := make([]*Term, len(x.args))
		for i := range args {
			args[i] = b.ite(c, x.args[i], y.args[i])
		}
		return b.tuple(args)
	}
	if x.op == "iface" && y.op == "iface" && x.aux == y.aux {
		return b.iface(x.aux, x.typ, b.ite(c, x.args[0], y.args[0]))
	}
	if x.op == "slice" && y.op == "slice" && x.args[0] == y.args[0] {
		return b.mk(Term{op: "slice", kind: 'o', args: []*Term{x.args[0], b.ite(c, x.args[1], y.args[1]), b.ite(c, x.args[2], y.args[2])}})
	}
	if k == 's' && x.kind == 's' && y.kind == 's' {
		return b.seqIte(c, x, y)
	}
	t := b.mk(Term{op: "ite", kind: k, args: []*Term{c, x, y}})
	if t.typ == nil {
		if x.typ != nil {
			t.typ = x.typ
		} else {
			t.typ = y.typ
		}
	}
	return t
}

// expandLike: the fields of symbolic struct y, shaped like struct term x
func (b *TB) expandLike(x, y *Term) []*Term {
	switch x.s {
	case "buf":
		return []*Term{b.bufseq(y)}
	case "rdr":
		return []*Term{b.rdrPart(y, 0), b.rdrPart(y, 1)}
	case "zw", "hash", "rc4", "big":
		return nil
	}
	st, ok := x.typ.Underlying().(*types.Struct)
	if !ok || st.NumFields() != len(x.args) {
		return nil
	}
	out := make([]*Term, len(x.args))
	for i := range out {
		out[i] = b.fieldNamed(y, st.Field(i).Name(), st.Field(i).Type())
	}
	return out
}

// rdrPart: the data (0) and the position (1) of a reader; rdrVal: a reader with given ones
func (b *TB) rdrPart(t *Term, i int) *Term {
	switch {
	case t.op == "ite":
		return b.mapIte(t, func(x *Term) *Term { return b.rdrPart(x, i) })
	case t.op == "struct" && t.s == "rdr":
		return t.args[i]
	case i == 0:
		return b.appK("rdrseq", 's', t)
	}
	return b.appK("rdrpos", 'n', t)
}

func (b *TB) rdrVal(t types.Type, q, p *Term) *Term {
	if q.isApp("rdrseq") && p.isApp("rdrpos") && q.args[0] == p.args[0] {
		return q.args[0]
	}
	return b.mk(Term{op: "struct", kind: 'o', s: "rdr", args: []*Term{q, p}, typ: t})
}

func (b *TB) bufseq(t *Term) *Term {
	switch t.op {
	case "ite":
		return b.mapIte(t, b.bufseq)
	case "struct":
		return t.args[0]
	}
	return b.appK("bufseq", 's', t)
}

// deref: what a symbolic pointer points to; elems, mapof: the contents of symbolic slices and maps.
func (b *TB) deref(t *Term, elem types.Type) *Term {
	if t.op == "ite" {
		return b.mapIte(t, func(x *Term) *Term { return b.deref(x, elem) })
	}
	if t.isApp("ref") {
		return t.args[0]
	}
	return b.app("*", elem, t)
}

func (b *TB) elems(t *Term) *Term {
	if t.op == "ite" {
		return b.mapIte(t, b.elems)
	}
	if t.isNil() {
		return b.str("")
	}
	if t.isApp("sl") {
		return t.args[0]
	}
	return b.appK("elems", 's', t)
}

func (b *TB) mapof(t *Term) *Term {
	if t.op == "ite" {
		return b.mapIte(t, b.mapof)
	}
	if t.isNil() {
		return b.appK("mempty", 'o')
	}
	if t.isApp("mp") {
		return t.args[0]
	}
	return b.appK("mapof", 'o', t)
}

// runepos: byte position of the p-th character of s.
func (b *TB) runepos(s, p *Term) *Term {
	if v, ok := p.intVal(); ok && v == 0 {
		return p
	}
	return b.appK("runepos", 'n', s, p)
}

func (b *TB) runeStr(x *Term) *Term {
	if x.op == "ite" {
		return b.mapIte(x, b.runeStr)
	}
	if v, ok := x.intVal(); ok {
		return b.str(string(rune(v)))
	}
	return b.appK("utf8", 's', x)
}

// runesStr: string of a sequence of characters
func (b *TB) runesStr(s *Term) *Term {
	if s.op == "ite" {
		return b.mapIte(s, b.runesStr)
	}
	if s.isApp("runes") {
		return s.args[0]
	}
	var out []*Term
	for _, g := range segsOf(s) {
		switch {
		case g.isApp("runes"):
			out = append(out, g.args[0])
		case g.op == "unit":
			out = append(out, b.runeStr(g.args[0]))
		case g.op == "star" && g.args[1].op == "unit":
			l, _ := strconv.Atoi(g.s)
			k := b.freshSym("κ", types.Typ[types.Int])
			out = append(out, b.star(g.args[0], b.runeStr(b.subst(g.args[1].args[0], map[*Term]*Term{b.bv(l): k})), k))
		default:
			out = append(out, b.appK("runesstr", 's', g))
		}
	}
	return b.cat(out...)
}

func (b *TB) trunc(x *Term, to types.Type) *Term {
	if x.op == "ite" {
		return b.mapIte(x, func(y *Term) *Term { return b.trunc(y, to) })
	}
	if x.op == "num" {
		return b.num(new(big.Rat).SetInt(new(big.Int).Quo(x.r.Num(), x.r.Denom())))
	}
	if isIntTerm(b, x) && x.op != "app" {
		ints := true
		ks, _ := b.polyParts(x)
		for _, k := range ks {
			if k.op != "num" && (k.typ == nil || isFloatT(k.typ)) {
				ints = false
			}
		}
		if ints {
			return x
		}
	}
	if x.typ != nil {
		if bt, ok := x.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			return x
		}
	}
	return b.appK("trunc", 'n', x)
}

// canon: an atom stands for itself as a decision node
func asIte(b *TB, t *Term) *Term {
	return t
}

func bddTop(t *Term) *Term {
	if t.op == "ite" {
		return t.args[0]
	}
	if t.kind == 'b' && t.op != "bool" {
		return t // atom
	}
	return nil
}

func (b *TB) bcof(t, atom *Term, v bool) *Term {
	if t == atom {
		return b.bool(v)
	}
	return cof(t, atom, v)
}

// eqClass: for an atom that says that something equals a constant, that thing. At most one such atom holds.
func (b *TB) eqClass(a *Term) *Term {
	if a.op != "app" || a.kind != 'b' {
		return nil
	}
	switch a.s {
	case "eq0":
		if c, ok := b.eqcls[a]; ok {
			return c
		}
		t := a.args[0]
		ks, cs := b.polyParts(t)
		for i, k := range ks {
			if k.op == "num" {
				t = b.sub(t, b.scale(k, cs[i]))
			}
		}
		b.eqcls[a] = t
		return t
	case "eq":
		if a.args[0].op == "str" && a.args[1].op != "str" {
			return a.args[1]
		}
		if a.args[1].op == "str" && a.args[0].op != "str" {
			return a.args[0]
		}
	}
	return nil
}

// emptyTest: of a condition that a string is empty, the string.
func emptyTest(a *Term) *Term {
	if a.isApp("eq0") && a.args[0].isApp("len") {
		return a.args[0].args[0]
	}
	return nil
}

// excl: t where atom holds, as far as that says that other equalities with constants do not.
func (b *TB) excl(t, atom *Term) *Term {
	cl := b.eqClass(atom)
	if cl == nil {
		return t
	}
	// a string that is empty is no other, and the other way round
	id := cl.id
	e0 := emptyTest(atom)
	var of *Term
	if e0 == nil && atom.s == "eq" {
		of = cl
	}
	if e0 != nil || of != nil {
		id = -atom.id - 1
	}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		ta := bddTop(t)
		if ta == nil {
			return t
		}
		k := fmt.Sprintf("ex%d,%d", t.id, id)
		if m, ok := b.memo[k]; ok {
			return m
		}
		var r *Term
		if b.eqClass(ta) == cl || e0 != nil && ta.isApp("eq") && b.eqClass(ta) == e0 || of != nil && emptyTest(ta) == of {
			r = w(b.bcof(t, ta, false))
		} else if t == ta {
			r = t
		} else {
			t1, t0 := b.bcof(t, ta, true), b.bcof(t, ta, false)
			w1, w0 := w(t1), w(t0)
			if t1 == w1 && t0 == w0 {
				r = t
			} else {
				r = b.ite(ta, w1, w0)
			}
		}
		b.memo[k] = r
		return r
	}
	return w(t)
}

// ite: c any boolean term
func (b *TB) ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.kind == 'b' && x.isTrue() && y.isFalse() {
		return c
	}
	k := fmt.Sprintf("ite%d,%d,%d", c.id, x.id, y.id)
	if m, ok := b.memo[k]; ok {
		return m
	}
	// top atom over c, x, y (x and y only if they are decision nodes)
	top := bddTop(c)
	for _, t := range []*Term{x, y} {
		var a *Term
		if t.op == "ite" {
			a = t.args[0]
		} else if t.kind == 'b' && t.op != "bool" {
			a = t
		}
		if a != nil && a.id < top.id {
			top = a
		}
	}
	r1 := b.ite(b.excl(b.bcof(c, top, true), top), b.excl(b.bcof(x, top, true), top), b.excl(b.bcof(y, top, true), top))
	r0 := b.ite(b.bcof(c, top, false), b.bcof(x, top, false), b.bcof(y, top, false))
	var r *Term
	if r1 != r0 && b.eqClass(top) != nil && b.excl(r0, top) == r1 {
		r = r0 // the test is implied by those below it
	} else {
		r = b.node(top, r1, r0)
	}
	b.memo[k] = r
	return r
}

func (b *TB) not(c *Term) *Term       { return b.ite(c, b.F(), b.T()) }
func (b *TB) and(x, y *Term) *Term    { return b.ite(x, y, b.F()) }
func (b *TB) or(x, y *Term) *Term     { return b.ite(x, b.T(), y) }
func (b *TB) implies(x, y *Term) bool { return b.ite(x, y, b.T()).isTrue() }

// restrict simplifies t under the assumption that c holds (decision structure only).
func (b *TB) restrict(t, c *Term) *Term {
	if c.isTrue() || c.isFalse() {
		return t
	}
	if t.op == "struct" || t.op == "tuple" {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = b.restrict(a, c)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			return t
		}
		if t.op == "struct" {
			return b.mkStruct(t.s, t.typ, args)
		}
		return b.tuple(args)
	}
	ta := bddTop(t)
	if ta == nil {
		return t
	}
	k := fmt.Sprintf("res%d,%d", t.id, c.id)
	if m, ok := b.memo[k]; ok {
		return m
	}
	var r *Term
	ca := bddTop(c)
	if ca.id < ta.id {
		c1, c0 := b.bcof(c, ca, true), b.bcof(c, ca, false)
		switch {
		case c1.isFalse():
			r = b.restrict(t, c0)
		case c0.isFalse():
			r = b.restrict(b.excl(t, ca), c1)
		default:
			if b.eqClass(ca) != nil {
				// t is the same whether ca is tested or not, but its other tests of the same thing only matter below c0
				if x := b.excl(t, ca); x != t {
					r1, r0 := b.restrict(x, c1), b.restrict(t, c0)
					r = b.ite(ca, r1, r0)
					break
				}
			}
			r = b.restrict(t, b.or(c1, c0))
		}
	} else {
		t1, t0 := b.bcof(t, ta, true), b.bcof(t, ta, false)
		c1, c0 := b.bcof(c, ta, true), b.bcof(c, ta, false)
		switch {
		case c1.isFalse():
			r = b.restrict(t0, c0)
		case c0.isFalse():
			r = b.restrict(t1, c1)
		default:
			r = b.ite(ta, b.restrict(t1, c1), b.restrict(t0, c0))
		}
	}
	b.memo[k] = r
	return r
}

// restrictIn also simplifies the arguments of the values at the leaves.
func (b *TB) restrictIn(t, c *Term) *Term {
	c = b.lenFacts(t, c)
	if c.isTrue() || c.isFalse() {
		return t
	}
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := b.restrict(t, c)
		if r.op == "ite" {
			r = b.ite(r.args[0], w(r.args[1]), w(r.args[2]))
		} else if len(r.args) > 0 && !isBinder(r.op) && r.op != "ptr" && r.kind != 'b' && len(r.args) < 200 {
			args := make([]*Term, len(r.args))
			ch := false
			for i, a := range r.args {
				args[i] = w(a)
				if args[i] != a {
					ch = true
				}
			}
			if ch {
				r = b.rebuild(r, args)
			}
		}
		memo[t] = r
		return r
	}
	return w(t)
}

// lenFacts adds to c that a slice with a known number of elements, which c tests, is not nil, for slices that t compares with nil.
func (b *TB) lenFacts(t, c *Term) *Term {
	if c.isTrue() || c.isFalse() {
		return c
	}
	seen := map[*Term]bool{}
	var ats []*Term
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.isApp("eq0") {
			ats = append(ats, x)
		}
		if x.op == "ite" {
			w(x.args[0])
			w(x.args[1])
			w(x.args[2])
		}
	}
	w(c)
	for _, a := range ats {
		ks, cs := b.polyParts(a.args[0])
		if len(ks) != 2 {
			continue
		}
		for i, k := range ks {
			if k.isApp("len") && ks[1-i].op == "num" && cs[1-i].Sign() != 0 {
				x := k.args[0]
				if x.isApp("elems") {
					x = x.args[0]
				}
				n := b.eq(x, b.nil_())
				if n.isApp("isnil") && contains(t, n) && !contains(c, n) {
					c = b.and(c, b.or(b.not(a), b.not(n)))
				}
			}
		}
	}
	return c
}

// leaves of the decision structure
func leaves(t *Term, f func(*Term)) {
	if t.op == "ite" {
		leaves(t.args[1], f)
		leaves(t.args[2], f)
		return
	}
	f(t)
}

// mapIte applies f to the leaves.
func (b *TB) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op != "ite" {
		return f(t)
	}
	return b.ite(t.args[0], b.mapIte(t.args[1], f), b.mapIte(t.args[2], f))
}

// lift2 applies f to all combinations of leaves.
func (b *TB) lift2(x, y *Term, f func(x, y *Term) *Term) *Term {
	a := minAtom(x, y)
	if a == nil {
		return f(x, y)
	}
	return b.ite(a, b.lift2(cof(x, a, true), cof(y, a, true), f), b.lift2(cof(x, a, false), cof(y, a, false), f))
}

// ---- structs, tuples, pointers

func (b *TB) mkStruct(name string, typ types.Type, args []*Term) *Term {
	if name == "buf" && args[0].isApp("bufseq") {
		return args[0].args[0]
	}
	if typ != nil && len(args) > 0 {
		if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() == len(args) {
			var base *Term
			for i, a := range args {
				if !a.isApp("."+st.Field(i).Name()) || base != nil && a.args[0] != base {
					base = nil
					break
				}
				base = a.args[0]
			}
			if base != nil {
				return base
			}
		}
	}
	t := b.mk(Term{op: "struct", kind: 'o', s: name, args: args})
	if t.typ == nil {
		t.typ = typ
	}
	return t
}
func (b *TB) tuple(args []*Term) *Term { return b.mk(Term{op: "tuple", kind: 'o', args: args}) }
func (b *TB) iface(dyn any, typ types.Type, v *Term) *Term {
	t := b.mk(Term{op: "iface", kind: 'o', aux: dyn, args: []*Term{v}, s: ""})
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

// ---- polynomials

var ratOne = big.NewRat(1, 1)

func (b *TB) polyParts(t *Term) ([]*Term, []*big.Rat) {
	switch t.op {
	case "num":
		if t.r.Sign() == 0 {
			return nil, nil
		}
		return []*Term{b.num(ratOne)}, []*big.Rat{t.r}
	case "poly":
		return t.args, t.cs
	}
	return []*Term{t}, []*big.Rat{ratOne}
}

func (b *TB) mkPoly(m map[*Term]*big.Rat) *Term {
	var ks []*Term
	for k, c := range m {
		if c.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return b.num(new(big.Rat))
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 {
		if ks[0].op == "num" {
			return b.num(m[ks[0]])
		}
		if m[ks[0]].Cmp(ratOne) == 0 {
			return ks[0]
		}
	}
	cs := make([]*big.Rat, len(ks))
	for i, k := range ks {
		cs[i] = m[k]
	}
	return b.mk(Term{op: "poly", kind: 'n', args: ks, cs: cs})
}

func (b *TB) add(x, y *Term) *Term { return b.lin(x, ratOne, y, ratOne) }
func (b *TB) sub(x, y *Term) *Term { return b.lin(x, ratOne, y, big.NewRat(-1, 1)) }
func (b *TB) neg(x *Term) *Term    { return b.lin(b.int(0), ratOne, x, big.NewRat(-1, 1)) }
func (b *TB) scale(x *Term, c *big.Rat) *Term {
	return b.lin(b.int(0), ratOne, x, c)
}

func (b *TB) lin(x *Term, cx *big.Rat, y *Term, cy *big.Rat) *Term {
	if x.op == "ite" || y.op == "ite" {
		k := fmt.Sprintf("lin%d,%s,%d,%s", x.id, cx.RatString(), y.id, cy.RatString())
		if m, ok := b.memo[k]; ok {
			return m
		}
		r := b.lift2(x, y, func(x, y *Term) *Term { return b.lin(x, cx, y, cy) })
		b.memo[k] = r
		return r
	}
	m := map[*Term]*big.Rat{}
	for i, p := range []*Term{x, y} {
		c := cx
		if i == 1 {
			c = cy
		}
		ks, cs := b.polyParts(p)
		for j, k := range ks {
			v := new(big.Rat).Mul(cs[j], c)
			if o, ok := m[k]; ok {
				v.Add(v, o)
			}
			m[k] = v
		}
	}
	return b.mkPoly(m)
}

func (b *TB) mul(x, y *Term) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, b.mul)
	}
	m := map[*Term]*big.Rat{}
	xs, xc := b.polyParts(x)
	ys, yc := b.polyParts(y)
	if len(xs)*len(ys) > 400 {
		return b.appK("mulbig", 'n', x, y)
	}
	for i, p := range xs {
		for j, q := range ys {
			k, cf := b.mono(p, q)
			v := new(big.Rat).Mul(xc[i], yc[j])
			v.Mul(v, cf)
			if o, ok := m[k]; ok {
				v.Add(v, o)
			}
			m[k] = v
		}
	}
	return b.mkPoly(m)
}

// mono multiplies two monomials.
func (b *TB) mono(p, q *Term) (*Term, *big.Rat) {
	var fs []*Term
	for _, t := range []*Term{p, q} {
		switch {
		case t.op == "num":
		case t.op == "mul":
			fs = append(fs, t.args...)
		default:
			fs = append(fs, t)
		}
	}
	// cancel x * inv(x)
	for i := 0; i < len(fs); i++ {
		if fs[i].isApp("inv") {
			for j := range fs {
				if fs[j] == fs[i].args[0] {
					a, c := i, j
					if a > c {
						a, c = c, a
					}
					fs = append(fs[:c], fs[c+1:]...)
					fs = append(fs[:a], fs[a+1:]...)
					i = -1
					break
				}
			}
		}
	}
	if len(fs) == 0 {
		return b.num(ratOne), ratOne
	}
	if len(fs) == 1 {
		return fs[0], ratOne
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return b.mk(Term{op: "mul", kind: 'n', args: fs}), ratOne
}

// fdiv: real division
func (b *TB) fdiv(x, y *Term) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, b.fdiv)
	}
	if y.op == "num" && y.r.Sign() != 0 {
		return b.scale(x, new(big.Rat).Inv(y.r))
	}
	// normalise the divisor's leading coefficient
	ks, cs := b.polyParts(y)
	if len(ks) == 1 && y.op == "poly" {
		inv := b.mul(b.appK("inv", 'n', ks[0]), b.num(new(big.Rat).Inv(cs[0])))
		return b.mul(x, inv)
	}
	if y.op == "mul" {
		r := x
		for _, f := range y.args {
			r = b.mul(r, b.appK("inv", 'n', f))
		}
		return r
	}
	return b.mul(x, b.appK("inv", 'n', y))
}

// rng: bounds of an integer term, if known.
func (b *TB) rng(t *Term) (lo, hi *big.Int, ok bool) {
	switch t.op {
	case "num":
		if t.r.IsInt() {
			return t.r.Num(), t.r.Num(), true
		}
		return
	case "poly":
		lo, hi = new(big.Int), new(big.Int)
		for i, a := range t.args {
			if !t.cs[i].IsInt() {
				return nil, nil, false
			}
			al, ah, ok := b.rng(a)
			if !ok {
				return nil, nil, false
			}
			c := t.cs[i].Num()
			x, y := new(big.Int).Mul(al, c), new(big.Int).Mul(ah, c)
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
		}
		return lo, hi, true
	case "ite":
		l1, h1, ok1 := b.rng(t.args[1])
		l2, h2, ok2 := b.rng(t.args[2])
		if ok1 && ok2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
		return nil, nil, false
	case "app":
		switch t.s {
		case "mod":
			if n, ok := t.args[1].intVal(); ok {
				return new(big.Int), big.NewInt(n - 1), true
			}
		case "and":
			if n, ok := t.args[1].intVal(); ok && n >= 0 {
				return new(big.Int), big.NewInt(n), true
			}
		case "len":
			if t.args[0].isApp("utf8") {
				return big.NewInt(1), big.NewInt(4), true
			}
		case "shr":
			if l, h, ok := b.rng(t.args[0]); ok && l.Sign() >= 0 {
				if k, ok := t.args[1].intVal(); ok {
					return new(big.Int), new(big.Int).Rsh(h, uint(k)), true
				}
			}
		}
	}
	if t.typ != nil {
		if bt, ok := t.typ.Underlying().(*types.Basic); ok {
			if bits, signed, ok := intBits(bt); ok && bits < 64 {
				if signed {
					h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
					return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
				}
				h := new(big.Int).Lsh(big.NewInt(1), uint(bits))
				return new(big.Int), h.Sub(h, big.NewInt(1)), true
			}
		}
	}
	return nil, nil, false
}

func intBits(t *types.Basic) (bits int, signed, ok bool) {
	switch t.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// convInt converts an integer term to an integer type.
func (b *TB) convInt(t *Term, to *types.Basic) *Term {
	if t.op == "ite" {
		return b.mapIte(t, func(x *Term) *Term { return b.convInt(x, to) })
	}
	bits, signed, ok := intBits(to)
	if !ok {
		return t
	}
	if t.op == "num" && t.r.IsInt() {
		v := new(big.Int).Set(t.r.Num())
		m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		v.Mod(v, m)
		if signed && v.Bit(bits-1) == 1 {
			v.Sub(v, m)
		}
		return b.num(new(big.Rat).SetInt(v))
	}
	if bits == 64 {
		return t
	}
	lo, hi := new(big.Int), new(big.Int)
	if signed {
		hi.Lsh(big.NewInt(1), uint(bits-1))
		lo.Neg(hi)
	} else {
		hi.Lsh(big.NewInt(1), uint(bits))
	}
	hi.Sub(hi, big.NewInt(1))
	if l, h, ok := b.rng(t); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if !signed {
		return b.modT(t, b.num(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(bits)))))
	}
	// sign reinterpretation: of the value modulo 2^bits
	u := b.modT(t, b.num(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(bits)))))
	r := b.app("sint"+strconv.Itoa(bits), to, u)
	return r
}

// modT: t modulo n (n a constant power of two), non-negative.
func (b *TB) modT(t, n *Term) *Term {
	if t.op == "ite" {
		return b.mapIte(t, func(x *Term) *Term { return b.modT(x, n) })
	}
	if l, h, ok := b.rng(t); ok && l.Sign() >= 0 && h.Cmp(n.r.Num()) < 0 {
		return t
	}
	// drop multiples of n, and inner mod by multiples of n
	if t.op == "poly" || t.op == "app" {
		ks, cs := b.polyParts(t)
		m := map[*Term]*big.Rat{}
		ch := false
		for i, k := range ks {
			c := cs[i]
			if !c.IsInt() {
				return b.appK("mod", 'n', t, n)
			}
			cm := new(big.Int).Mod(c.Num(), n.r.Num())
			if cm.Sign() == 0 {
				ch = true
				continue
			}
			kk := k
			if k.isApp("mod") {
				if q := new(big.Int).Mod(k.args[1].r.Num(), n.r.Num()); q.Sign() == 0 {
					kk = k.args[0]
					ch = true
				}
			}
			if strings.HasPrefix(k.s, "sint") && k.op == "app" {
				bits, _ := strconv.Atoi(k.s[4:])
				if new(big.Int).Mod(new(big.Int).Lsh(big.NewInt(1), uint(bits)), n.r.Num()).Sign() == 0 {
					kk = k.args[0]
					ch = true
				}
			}
			if kk.op == "poly" || kk.op == "num" {
				p := b.scale(kk, c)
				k2, c2 := b.polyParts(p)
				for j := range k2 {
					v := new(big.Rat).Set(c2[j])
					if o, ok := m[k2[j]]; ok {
						v.Add(v, o)
					}
					m[k2[j]] = v
				}
				continue
			}
			v := new(big.Rat).Set(c)
			if o, ok := m[kk]; ok {
				v.Add(v, o)
			}
			m[kk] = v
		}
		if ch {
			return b.modT(b.mkPoly(m), n)
		}
	}
	if t.op == "num" && t.r.IsInt() {
		return b.num(new(big.Rat).SetInt(new(big.Int).Mod(t.r.Num(), n.r.Num())))
	}
	return b.appK("mod", 'n', t, n)
}

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

func (b *TB) shl(x, y *Term, typ *types.Basic) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, func(x, y *Term) *Term { return b.shl(x, y, typ) })
	}
	if k, ok := y.intVal(); ok && k >= 0 && k < 200 {
		return b.convInt(b.scale(x, new(big.Rat).SetInt(pow2(uint(k)))), typ)
	}
	return b.appK("shl", 'n', x, y)
}

func (b *TB) shr(x, y *Term) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, b.shr)
	}
	k, ok := y.intVal()
	if !ok || k < 0 || k > 200 {
		return b.appK("shr", 'n', x, y)
	}
	if k == 0 {
		return x
	}
	if x.op == "num" && x.r.IsInt() {
		return b.num(new(big.Rat).SetInt(new(big.Int).Rsh(x.r.Num(), uint(k))))
	}
	p := pow2(uint(k))
	if x.isApp("mod") && x.args[1].op == "num" {
		// a power of two that 2^k divides
		if q, r := new(big.Int).QuoRem(x.args[1].r.Num(), p, new(big.Int)); r.Sign() == 0 && q.Sign() > 0 {
			return b.modT(b.shr(x.args[0], y), b.num(new(big.Rat).SetInt(q)))
		}
	}
	// split into a multiple of 2^k and a small rest
	ks, cs := b.polyParts(x)
	hi, lo := map[*Term]*big.Rat{}, map[*Term]*big.Rat{}
	for i := range ks {
		if !cs[i].IsInt() {
			return b.appK("shr", 'n', x, y)
		}
		if new(big.Int).Mod(cs[i].Num(), p).Sign() == 0 {
			hi[ks[i]] = new(big.Rat).SetInt(new(big.Int).Div(cs[i].Num(), p))
		} else {
			lo[ks[i]] = cs[i]
		}
	}
	lt := b.mkPoly(lo)
	if l, h, ok := b.rng(lt); ok && l.Sign() >= 0 && h.Cmp(p) < 0 {
		return b.mkPoly(hi)
	}
	if x.isApp("shr") {
		if k2, ok := x.args[1].intVal(); ok {
			return b.shr(x.args[0], b.int(k+k2))
		}
	}
	return b.appK("shr", 'n', x, y)
}

func (b *TB) bitOr(x, y *Term) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, b.bitOr)
	}
	if xi, ok := x.intVal(); ok {
		if yi, ok := y.intVal(); ok {
			return b.int(xi | yi)
		}
		if xi == 0 {
			return y
		}
	}
	if yi, ok := y.intVal(); ok && yi == 0 {
		return x
	}
	if x == y {
		return x
	}
	try := func(hi, lo *Term) *Term {
		_, h, ok := b.rng(lo)
		l, _, ok2 := b.rng(lo)
		if !ok || !ok2 || l.Sign() < 0 {
			return nil
		}
		k := h.BitLen()
		ks, cs := b.polyParts(hi)
		for i := range ks {
			if !cs[i].IsInt() || new(big.Int).Mod(cs[i].Num(), pow2(uint(k))).Sign() != 0 {
				return nil
			}
		}
		return b.add(hi, lo)
	}
	if r := try(x, y); r != nil {
		return r
	}
	if r := try(y, x); r != nil {
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.appK("or", 'n', x, y)
}

func (b *TB) bitAnd(x, y *Term) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, b.bitAnd)
	}
	xi, ok1 := x.intVal()
	yi, ok2 := y.intVal()
	if ok1 && ok2 {
		return b.int(xi & yi)
	}
	if ok1 {
		x, y, yi, ok2 = y, x, xi, true
	}
	if ok2 {
		if yi == 0 {
			return b.int(0)
		}
		if yi > 0 && yi&(yi+1) == 0 {
			return b.modT(x, b.int(yi+1))
		}
		return b.appK("and", 'n', x, y)
	}
	if x == y {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.appK("and", 'n', x, y)
}

func (b *TB) bitXor(x, y *Term) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, b.bitXor)
	}
	xi, ok1 := x.intVal()
	yi, ok2 := y.intVal()
	if ok1 && ok2 {
		return b.int(xi ^ yi)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.appK("xor", 'n', x, y)
}

func (b *TB) idiv(x, y *Term) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, b.idiv)
	}
	if x.op == "num" && y.op == "num" && y.r.Sign() != 0 && x.r.IsInt() && y.r.IsInt() {
		return b.num(new(big.Rat).SetInt(new(big.Int).Quo(x.r.Num(), y.r.Num())))
	}
	if kx, cx := b.polyParts(x); len(kx) == 1 && kx[0].op != "num" {
		if ky, cy := b.polyParts(y); len(ky) == 1 && ky[0] == kx[0] && cx[0].IsInt() && cy[0].IsInt() && cy[0].Sign() != 0 {
			return b.num(new(big.Rat).SetInt(new(big.Int).Quo(cx[0].Num(), cy[0].Num())))
		}
	}
	if x.op == "num" && x.r.Sign() == 0 {
		return x
	}
	if y.op == "num" && y.r.IsInt() && y.r.Sign() < 0 {
		return b.neg(b.idiv(x, b.neg(y)))
	}
	// division truncates towards zero
	if ks, cs := b.polyParts(x); len(ks) > 0 {
		neg := true
		for _, c := range cs {
			neg = neg && c.Sign() < 0
		}
		if neg {
			return b.neg(b.idiv(b.neg(x), y))
		}
	}
	if y.op == "num" && y.r.IsInt() && y.r.Sign() > 0 {
		ks, cs := b.polyParts(x)
		all := true
		for i := range ks {
			if !cs[i].IsInt() || new(big.Int).Mod(cs[i].Num(), y.r.Num()).Sign() != 0 {
				all = false
			}
		}
		if all {
			return b.scale(x, new(big.Rat).Inv(y.r))
		}
		if l, _, ok := b.rng(x); ok && l.Sign() >= 0 && new(big.Int).And(y.r.Num(), new(big.Int).Sub(y.r.Num(), big.NewInt(1))).Sign() == 0 {
			return b.shr(x, b.int(int64(y.r.Num().BitLen()-1)))
		}
	}
	return b.appK("idiv", 'n', x, y)
}

func (b *TB) irem(x, y *Term) *Term {
	if x.op == "ite" || y.op == "ite" {
		return b.lift2(x, y, b.irem)
	}
	if x.op == "num" && y.op == "num" && y.r.Sign() != 0 && x.r.IsInt() && y.r.IsInt() {
		return b.num(new(big.Rat).SetInt(new(big.Int).Rem(x.r.Num(), y.r.Num())))
	}
	if y.op == "num" && y.r.IsInt() && y.r.Sign() > 0 {
		if l, _, ok := b.rng(x); ok && l.Sign() >= 0 && new(big.Int).And(y.r.Num(), new(big.Int).Sub(y.r.Num(), big.NewInt(1))).Sign() == 0 {
			return b.modT(x, y)
		}
	}
	return b.appK("rem", 'n', x, y)
}

// ---- comparisons

func leadNeg(t *Term) bool {
	// sign of the coefficient of the first non-constant monomial
	if t.op == "poly" {
		for i, a := range t.args {
			if a.op != "num" {
				return t.cs[i].Sign() < 0
			}
		}
	}
	return false
}

func isIntTerm(b *TB, t *Term) bool {
	ks, cs := b.polyParts(t)
	for i := range ks {
		if !cs[i].IsInt() {
			return false
		}
	}
	return true
}

// ge0: integer comparison t >= 0.
func (b *TB) ge0(t *Term) *Term {
	if t.op == "ite" {
		return b.mapIte(t, b.ge0)
	}
	if t.op == "num" {
		return b.bool(t.r.Sign() >= 0)
	}
	if l, h, ok := b.rng(t); ok {
		if l.Sign() >= 0 {
			return b.T()
		}
		if h.Sign() < 0 {
			return b.F()
		}
	}
	if b.prove(t) {
		return b.T()
	}
	if b.prove(b.sub(b.neg(t), b.int(1))) {
		return b.F()
	}
	if t.op == "poly" && len(t.args) == 2 {
		for i, a := range t.args {
			if a.isApp("runepos") && t.cs[i].Cmp(ratOne) == 0 && t.args[1-i].op == "num" && t.cs[1-i].Cmp(big.NewRat(-1, 1)) == 0 {
				return b.ge0(b.sub(a.args[1], b.int(1)))
			}
		}
	}
	if leadNeg(t) {
		return b.not(b.appK("ge0", 'b', b.sub(b.neg(t), b.int(1))))
	}
	return b.appK("ge0", 'b', t)
}

// prove: t >= 0 follows from the facts (non-negative lengths, current linear facts).
func (b *TB) prove(t *Term) bool {
	if b.nonneg(t) {
		return true
	}
	for _, f := range b.facts {
		d := b.sub(t, f)
		if b.nonneg(d) {
			return true
		}
	}
	if len(b.facts) <= 14 {
		for i, f := range b.facts {
			d := b.sub(t, f)
			for _, g := range b.facts[i:] {
				if b.nonneg(b.sub(d, g)) {
					return true
				}
			}
		}
	}
	return false
}

func (b *TB) nonneg(t *Term) bool {
	ks, cs := b.polyParts(t)
	for i, k := range ks {
		if k.op == "num" {
			if cs[i].Sign() < 0 {
				return false
			}
			continue
		}
		if cs[i].Sign() > 0 && b.nonnegAtom(k) {
			continue
		}
		return false
	}
	return true
}

func (b *TB) nonnegAtom(k *Term) bool {
	if k.isApp("len") || k.isApp("mod") || k.op == "first" || k.isApp("maplen") || k.isApp("runepos") {
		return true
	}
	if k.op == "sym" && strings.HasPrefix(k.s, "κ") || k.op == "sym" && strings.HasPrefix(k.s, "β") {
		return true
	}
	if l, _, ok := b.rng(k); ok && l.Sign() >= 0 {
		return true
	}
	if k.op == "sum" && b.nonnegSummand(k.args[1]) {
		return true
	}
	if k.op == "mul" {
		for _, a := range k.args {
			if !b.nonnegAtom(a) {
				return false
			}
		}
		return true
	}
	return false
}

// nonnegSummand: every branch of the summand is a count.
func (b *TB) nonnegSummand(t *Term) bool {
	if t.op == "ite" {
		return b.nonnegSummand(t.args[1]) && b.nonnegSummand(t.args[2])
	}
	if t.op == "num" {
		return t.r.Sign() >= 0
	}
	return b.nonnegAtom(t)
}

// lt0: real comparison t < 0.
func (b *TB) lt0(t *Term) *Term {
	if t.op == "ite" {
		return b.mapIte(t, b.lt0)
	}
	if t.op == "num" {
		return b.bool(t.r.Sign() < 0)
	}
	ks, cs := b.polyParts(t)
	for i := range ks {
		if ks[i].op != "num" {
			c := new(big.Rat).Abs(cs[i])
			t = b.scale(t, c.Inv(c))
			break
		}
	}
	return b.appK("lt0", 'b', t)
}

// eq: equality of two terms of the same Go type.
func (b *TB) eq(x, y *Term) *Term {
	if x == y {
		return b.T()
	}
	if x.op == "ite" || y.op == "ite" {
		k := fmt.Sprintf("eq%d,%d", x.id, y.id)
		if m, ok := b.memo[k]; ok {
			return m
		}
		r := b.lift2(x, y, b.eq)
		b.memo[k] = r
		return r
	}
	if x.kind == 'b' && y.kind == 'b' {
		return b.ite(x, y, b.not(y))
	}
	if x.kind == 'n' && y.kind == 'n' {
		d := b.sub(x, y)
		if d.op == "num" {
			return b.bool(d.r.Sign() == 0)
		}
		ks, cs := b.polyParts(d)
		for i := range ks {
			if ks[i].op != "num" {
				d = b.scale(d, new(big.Rat).Inv(cs[i]))
				break
			}
		}
		if isIntTerm(b, d) {
			if l, h, ok := b.rng(d); ok && (l.Sign() > 0 || h.Sign() < 0) {
				return b.F()
			}
		}
		return b.appK("eq0", 'b', d)
	}
	if x.isNil() {
		x, y = y, x
	}
	if y.isNil() {
		switch x.op {
		case "ptr", "iface", "clo", "slice", "struct", "cat", "str", "star", "unit", "mapv":
			return b.F()
		case "app":
			if strings.HasPrefix(x.s, "nonnil:") || x.s == "error" || x.s == "ref" || x.s == "mp" || x.s == "addr" || strings.HasPrefix(x.s, "clo:") {
				return b.F()
			}
			if x.s == "sl" {
				return b.F()
			}
		case "sym":
			if strings.HasPrefix(x.s, "global error ") {
				return b.F()
			}
		}
		return b.appK("isnil", 'b', x)
	}
	if x.op == "str" && y.op == "str" {
		return b.F()
	}
	if x.kind == 's' && y.kind == 's' {
		lx, ly := b.seqLen(x), b.seqLen(y)
		if d := b.sub(lx, ly); d.op == "num" && d.r.Sign() != 0 {
			return b.F()
		}
		if x.op == "str" && x.s == "" {
			x, y = y, x
		}
		if y.op == "str" && y.s == "" {
			return b.eq(b.seqLen(x), b.int(0))
		}
		// different known first or last characters
		if a, c := firstStr(x), firstStr(y); a != "" && c != "" {
			n := len(a)
			if len(c) < n {
				n = len(c)
			}
			if a[:n] != c[:n] {
				return b.F()
			}
		}
	}
	if x.op == "sym" && y.op == "sym" && strings.HasPrefix(x.s, "global error ") && strings.HasPrefix(y.s, "global error ") {
		return b.F()
	}
	if x.op == "ptr" && y.op == "ptr" && x.aux != y.aux {
		return b.F()
	}
	if x.op == "ptr" && y.op == "ptr" && x.aux.(*Obj).kind == 'r' && len(x.args) == 1 && len(y.args) == 1 {
		return b.ptrEq(x.args[0].args[0], y.args[0].args[0])
	}
	if x.op == "iface" && y.op == "iface" {
		if x.aux != y.aux {
			return b.F()
		}
		return b.eq(x.args[0], y.args[0])
	}
	for i := 0; i < 2; i++ {
		if x.op == "ptr" && x.aux.(*Obj).key == nil && (y.op == "sym" || y.op == "app") {
			return b.F()
		}
		x, y = y, x
	}
	if x.op == "struct" && y.op == "struct" && x.s == y.s && len(x.args) == len(y.args) {
		r := b.T()
		for i := range x.args {
			r = b.and(r, b.eq(x.args[i], y.args[i]))
		}
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.appK("eq", 'b', x, y)
}

func firstStr(t *Term) string {
	if t.op == "str" {
		return t.s
	}
	if t.op == "cat" && t.args[0].op == "str" {
		return t.args[0].s
	}
	return ""
}

// ---- sequences

func segsOf(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	if t.op == "str" && t.s == "" || t.op == "nil" {
		return nil
	}
	return []*Term{t}
}

func (b *TB) cat(ts ...*Term) *Term {
	var out []*Term
	push := func(s *Term) {
		if s.op == "str" && s.s == "" || s.op == "nil" {
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.op == "str" && s.op == "str" {
				out[n-1] = b.str(p.s + s.s)
				return
			}
			if p.op == "sub" && s.op == "sub" && p.args[0] == s.args[0] && p.args[2] == s.args[1] {
				out = out[:n-1]
				out = append(out, b.subSeq(p.args[0], p.args[1], s.args[2]))
				return
			}
		}
		out = append(out, s)
	}
	for _, t := range ts {
		for _, s := range segsOf(t) {
			push(s)
		}
	}
	if len(out) == 0 {
		return b.str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk(Term{op: "cat", kind: 's', args: out})
}

func (b *TB) unit(e *Term) *Term {
	if e.op == "num" {
		if v, ok := e.intVal(); ok && v >= 0 && v < 256 && e.typ == nil {
			_ = v
		}
	}
	return b.mk(Term{op: "unit", kind: 's', args: []*Term{e}})
}

// byteUnit: one byte
func (b *TB) byteUnit(e *Term) *Term {
	if v, ok := e.intVal(); ok && v >= 0 && v < 256 {
		return b.str(string([]byte{byte(v)}))
	}
	if e.op == "ite" {
		return b.mapIte(e, b.byteUnit)
	}
	// a byte read from a sequence is a part of it
	if e.isApp("idx") && e.args[0].kind == 's' {
		return b.subSeq(e.args[0], e.args[1], b.add(e.args[1], b.int(1)))
	}
	return b.unit(e)
}

func (b *TB) seqLen(t *Term) *Term {
	switch t.op {
	case "str":
		return b.int(int64(len(t.s)))
	case "nil":
		return b.int(0)
	case "unit":
		return b.int(1)
	case "cat":
		r := b.int(0)
		for _, a := range t.args {
			r = b.add(r, b.seqLen(a))
		}
		return r
	case "sub":
		return b.sub(t.args[2], t.args[1])
	case "ite":
		return b.ite(t.args[0], b.seqLen(t.args[1]), b.seqLen(t.args[2]))
	case "star":
		return b.sumOver(t.args[0], t.args[1], t.s, func(body *Term) *Term { return b.seqLen(body) })
	case "app":
		switch t.s {
		case "eachupd":
			return b.seqLen(t.args[0])
		case "md5":
			return b.int(16)
		}
	}
	return b.appK("len", 'n', t)
}

// subSeq: part [lo,hi) of an atomic sequence
func (b *TB) subSeq(base, lo, hi *Term) *Term {
	if lo == hi {
		return b.str("")
	}
	if base.op == "sub" {
		return b.subSeq(base.args[0], b.add(base.args[1], lo), b.add(base.args[1], hi))
	}
	if z, ok := lo.intVal(); ok && z == 0 && hi == b.seqLen(base) {
		return base
	}
	return b.mk(Term{op: "sub", kind: 's', args: []*Term{base, lo, hi}})
}

// slice of a sequence; positions are assumed to be within bounds.
func (b *TB) slice(t, lo, hi *Term) *Term {
	if lo.op == "ite" || hi.op == "ite" {
		return b.lift2(lo, hi, func(l, h *Term) *Term { return b.slice(t, l, h) })
	}
	if t.op == "ite" {
		return b.ite(t.args[0], b.slice(t.args[1], lo, hi), b.slice(t.args[2], lo, hi))
	}
	if lo == hi {
		return b.str("")
	}
	if t.op == "nil" {
		return b.str("")
	}
	if z, ok := lo.intVal(); ok && z == 0 && hi == b.seqLen(t) {
		return t
	}
	segs := segsOf(t)
	type cut struct {
		i   int
		off *Term
	}
	find := func(p *Term) (cut, bool) {
		cum := b.int(0)
		for i, s := range segs {
			if p == cum {
				return cut{i, b.int(0)}, true
			}
			cum = b.add(cum, b.seqLen(s))
		}
		if p == cum {
			return cut{len(segs), b.int(0)}, true
		}
		cum = b.int(0)
		for i, s := range segs {
			l := b.seqLen(s)
			next := b.add(cum, l)
			// inside this segment?
			d := b.sub(next, p)
			if d.op == "num" && d.r.Sign() > 0 || b.prove(d) {
				if b.prove(b.sub(p, cum)) || i == 0 {
					return cut{i, b.sub(p, cum)}, true
				}
				return cut{}, false
			}
			d2 := b.sub(p, next)
			if d2.op == "num" && d2.r.Sign() > 0 || b.prove(d2) {
				cum = next
				continue
			}
			if len(segs) == 1 {
				return cut{0, b.sub(p, cum)}, true
			}
			return cut{}, false
		}
		if p == cum {
			return cut{len(segs), b.int(0)}, true
		}
		if len(segs) > 0 {
			return cut{len(segs), b.sub(p, cum)}, true
		}
		return cut{}, false
	}
	c1, ok1 := find(lo)
	c2, ok2 := find(hi)
	if !ok1 || !ok2 {
		return b.subSeq(t, lo, hi)
	}
	part := func(s *Term, lo, hi *Term) *Term {
		switch s.op {
		case "str":
			l, ok1 := lo.intVal()
			h, ok2 := hi.intVal()
			if ok1 && ok2 && l >= 0 && h <= int64(len(s.s)) && l <= h {
				return b.str(s.s[l:h])
			}
		case "sub":
			return b.subSeq(s.args[0], b.add(s.args[1], lo), b.add(s.args[1], hi))
		case "unit":
			if l, ok := lo.intVal(); ok && l == 0 {
				if h, ok := hi.intVal(); ok && h == 1 {
					return s
				}
			}
		case "star":
			// elements lo..hi of a repetition of single elements
			if s.args[1].op == "unit" || (s.args[1].op == "str" && len(s.args[1].s) == 1) {
				if z, ok := lo.intVal(); ok && z == 0 {
					return b.star0(hi, s.args[1], s.s)
				}
			}
		}
		return b.subSeq(s, lo, hi)
	}
	var out []*Term
	if c1.i == c2.i {
		if c1.i >= len(segs) {
			return b.subSeq(t, lo, hi)
		}
		return part(segs[c1.i], c1.off, c2.off)
	}
	for i := c1.i; i < c2.i && i < len(segs); i++ {
		if i == c1.i && !(c1.off.op == "num" && c1.off.r.Sign() == 0) {
			out = append(out, part(segs[i], c1.off, b.seqLen(segs[i])))
		} else {
			out = append(out, segs[i])
		}
	}
	if !(c2.off.op == "num" && c2.off.r.Sign() == 0) {
		if c2.i >= len(segs) {
			return b.subSeq(t, lo, hi)
		}
		out = append(out, part(segs[c2.i], b.int(0), c2.off))
	}
	return b.cat(out...)
}

// idx: element i of a sequence with elements of type et.
func (b *TB) idx(t, i *Term, et types.Type) *Term {
	if i.op == "ite" {
		return b.mapIte(i, func(x *Term) *Term { return b.idx(t, x, et) })
	}
	if t.op == "ite" {
		return b.ite(t.args[0], b.idx(t.args[1], i, et), b.idx(t.args[2], i, et))
	}
	s := b.slice(t, i, b.add(i, b.int(1)))
	return b.elemOf(s, t, i, et)
}

func (b *TB) elemOf(s, t, i *Term, et types.Type) *Term {
	switch s.op {
	case "unit":
		return s.args[0]
	case "str":
		if len(s.s) == 1 {
			return b.int(int64(s.s[0]))
		}
	case "ite":
		return b.ite(s.args[0], b.elemOf(s.args[1], t, i, et), b.elemOf(s.args[2], t, i, et))
	case "sub":
		base, lo := s.args[0], s.args[1]
		if base.op == "star" {
			body := base.args[1]
			if l := b.seqLen(body); l.op == "num" && l.r.Cmp(ratOne) == 0 {
				return b.elemOf(b.instantiate(base, lo), t, i, et)
			}
		}
		if base.isApp("eachupd") {
			// last writer wins: unknown
		}
		return b.app("idx", et, base, lo)
	}
	if s.isApp("rev") || true {
		return b.app("idx", et, t, i)
	}
	return nil
}

// upd: sequence t with element i replaced.
func (b *TB) upd(t, i, v *Term, isByte bool) *Term {
	if i.op == "ite" {
		return b.mapIte(i, func(x *Term) *Term { return b.upd(t, x, v, isByte) })
	}
	if t.op == "ite" {
		return b.ite(t.args[0], b.upd(t.args[1], i, v, isByte), b.upd(t.args[2], i, v, isByte))
	}
	n := b.seqLen(t)
	u := b.unit(v)
	if isByte {
		u = b.byteUnit(v)
	}
	i1 := b.add(i, b.int(1))
	return b.cat(b.slice(t, b.int(0), i), u, b.slice(t, i1, n))
}

// seqIte factors common prefixes and suffixes out of a conditional sequence.
func (b *TB) seqIte(c, x, y *Term) *Term {
	xs, ys := segsOf(x), segsOf(y)
	var pre, suf []*Term
	for len(xs) > 0 && len(ys) > 0 {
		if xs[0] == ys[0] {
			pre = append(pre, xs[0])
			xs, ys = xs[1:], ys[1:]
			continue
		}
		if xs[0].op == "str" && ys[0].op == "str" {
			a, d := xs[0].s, ys[0].s
			n := 0
			for n < len(a) && n < len(d) && a[n] == d[n] {
				n++
			}
			if n > 0 {
				pre = append(pre, b.str(a[:n]))
				xs = append([]*Term{b.str(a[n:])}, xs[1:]...)
				ys = append([]*Term{b.str(d[n:])}, ys[1:]...)
				if xs[0].s == "" {
					xs = xs[1:]
				}
				if ys[0].s == "" {
					ys = ys[1:]
				}
				if n < len(a) && n < len(d) {
					break
				}
				continue
			}
		}
		break
	}
	for len(xs) > 0 && len(ys) > 0 && xs[len(xs)-1] == ys[len(ys)-1] {
		suf = append([]*Term{xs[len(xs)-1]}, suf...)
		xs, ys = xs[:len(xs)-1], ys[:len(ys)-1]
	}
	cx, cy := b.cat(xs...), b.cat(ys...)
	if len(pre) == 0 && len(suf) == 0 {
		return b.mk(Term{op: "ite", kind: 's', args: []*Term{c, cx, cy}})
	}
	mid := b.ite(c, cx, cy)
	all := append(append(append([]*Term{}, pre...), mid), suf...)
	return b.cat(all...)
}

// ---- binders: star (repetition), sum, forall/exists/first, fold. The bound variable is β<level>.

func (b *TB) bv(l int) *Term {
	t := b.mk(Term{op: "sym", kind: 'n', s: fmt.Sprintf("β%d", l)})
	t.lvl = l
	return t
}

// bind abstracts sym k from body; returns body with the bound variable and its level.
func (b *TB) bind(body, k *Term) (*Term, int) {
	lv := body.lvl + 1
	return b.subst(body, map[*Term]*Term{k: b.bv(lv)}), lv
}

func (b *TB) star0(n, body *Term, lv string) *Term {
	if n.op == "ite" {
		return b.mapIte(n, func(x *Term) *Term { return b.star0(x, body, lv) })
	}
	if v, ok := n.intVal(); ok {
		if v <= 0 {
			return b.str("")
		}
		l, _ := strconv.Atoi(lv)
		if v <= 64 {
			var out []*Term
			for i := int64(0); i < v; i++ {
				out = append(out, b.subst(body, map[*Term]*Term{b.bv(l): b.int(i)}))
			}
			return b.cat(out...)
		}
	}
	if body.op == "str" && body.s == "" {
		return body
	}
	l, _ := strconv.Atoi(lv)
	// a repetition of the elements of one sequence in order is that sequence
	if body.op == "sub" && body.args[1] == b.bv(l) && body.args[2] == b.add(b.bv(l), b.int(1)) && body.args[0].lvl < l {
		return b.slice(body.args[0], b.int(0), n)
	}
	if body.op == "unit" && body.args[0].isApp("idx") && body.args[0].args[1] == b.bv(l) && body.args[0].args[0].lvl < l {
		return b.slice(body.args[0].args[0], b.int(0), n)
	}
	if body.op == "sub" && body.args[0].lvl < l {
		if off := b.sub(body.args[1], b.bv(l)); off.lvl < l && body.args[2] == b.add(body.args[1], b.int(1)) {
			return b.slice(body.args[0], off, b.add(off, n))
		}
	}
	if body.op == "unit" && body.args[0].isApp("idx") && body.args[0].args[0].lvl < l {
		if off := b.sub(body.args[0].args[1], b.bv(l)); off.lvl < l {
			return b.slice(body.args[0].args[0], off, b.add(off, n))
		}
	}
	return b.mk(Term{op: "star", kind: 's', s: lv, args: []*Term{n, body}, lvl: l})
}

// star: concatenation of body(k) for k in [0,n).
// inRange: with 0 <= k < n, what lies behind the first n elements of a sequence does not matter for its kth element.
func (b *TB) inRange(n, x, k *Term) *Term {
	if n == nil || n.op == "ite" || n.op == "num" {
		return x
	}
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.isApp("idx") && t.args[1] == k && t.args[0].op == "cat" {
			l := b.int(0)
			ps := t.args[0].args
			for i, p := range ps[:len(ps)-1] {
				l = b.add(l, b.seqLen(p))
				if v, ok := b.sub(l, n).intVal(); ok && v >= 0 {
					m[t] = b.idx(b.cat(ps[:i+1]...), k, t.typ)
					break
				}
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(x)
	return b.subst(x, m)
}

func (b *TB) star(n, body, k *Term) *Term {
	bb, lv := b.bind(b.inRange(n, body, k), k)
	return b.star0(n, bb, strconv.Itoa(lv))
}

// instantiate the body of a binder term at position i.
func (b *TB) instantiate(t, i *Term) *Term {
	l, _ := strconv.Atoi(t.s)
	return b.subst(t.args[1], map[*Term]*Term{b.bv(l): i})
}

// sumOver: sum of f(body) over the repetition.
func (b *TB) sumOver(n, body *Term, lv string, f func(*Term) *Term) *Term {
	l, _ := strconv.Atoi(lv)
	k := b.freshSym("κs", types.Typ[types.Int])
	x := f(b.subst(body, map[*Term]*Term{b.bv(l): k}))
	return b.sum(n, x, k)
}

func contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "ptr" {
			if k := t.aux.(*Obj).key; k != nil && w(k) {
				return true
			}
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (b *TB) sum(n, x, k *Term) *Term {
	if !contains(x, k) {
		return b.mul(n, x)
	}
	if v, ok := n.intVal(); ok && v >= 0 && v <= 64 {
		r := b.int(0)
		for i := int64(0); i < v; i++ {
			r = b.add(r, b.subst(x, map[*Term]*Term{k: b.int(i)}))
		}
		return r
	}
	// linear: split constant factors
	if x.op == "poly" {
		r := b.int(0)
		for i, a := range x.args {
			if !contains(a, k) {
				r = b.add(r, b.mul(n, b.scale(a, x.cs[i])))
				continue
			}
			r = b.add(r, b.scale(b.sumAtom(n, a, k), x.cs[i]))
		}
		return r
	}
	return b.sumAtom(n, x, k)
}

func (b *TB) sumAtom(n, x, k *Term) *Term {
	if x.op == "mul" {
		inv := b.int(1)
		rest := b.int(1)
		for _, a := range x.args {
			if contains(a, k) {
				rest = b.mul(rest, a)
			} else {
				inv = b.mul(inv, a)
			}
		}
		if !(inv.op == "num") {
			return b.mul(inv, b.sumAtom(n, rest, k))
		}
	}
	bb, lv := b.bind(b.inRange(n, x, k), k)
	return b.mk(Term{op: "sum", kind: 'n', s: strconv.Itoa(lv), args: []*Term{n, bb}, lvl: lv})
}

// first: the smallest j < n with c(j), n if there is none. n may be nil (unbounded).
func (b *TB) first(n, c, k *Term) *Term {
	bb, lv := b.bind(b.inRange(n, c, k), k)
	if bb.isFalse() && n != nil {
		return n
	}
	if bb.isTrue() {
		return b.int(0)
	}
	if n == nil {
		n = b.symK("∞", 'n')
	}
	t := b.mk(Term{op: "first", kind: 'n', s: strconv.Itoa(lv), args: []*Term{n, bb}, lvl: lv})
	return t
}

func isBinder(op string) bool {
	return op == "star" || op == "sum" || op == "first" || op == "fold" || op == "meach"
}

// subst replaces terms (syms) in t and re-normalises.
func (b *TB) subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if t.op == "ptr" && (t.aux.(*Obj).key != nil || t.aux.(*Obj).kind == 'r') && b.ptrHook != nil {
			if r, ok := memo[t]; ok {
				return r
			}
			o := t.aux.(*Obj)
			key := o.key
			if o.kind == 'r' {
				key = t.args[0].args[0]
			}
			k := w(key)
			args := make([]*Term, len(t.args))
			ch := k != key
			for i, a := range t.args {
				args[i] = w(a)
				if args[i] != a {
					ch = true
				}
			}
			r := t
			if ch {
				if k == key {
					r = b.mk(Term{op: "ptr", kind: 'o', aux: o, args: args})
				} else {
					if o.kind == 'r' {
						args = args[1:]
					}
					r = b.ptrHook(o, k, args)
				}
			}
			memo[t] = r
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if isBinder(t.op) {
			r = b.substBinder(t, m, w)
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = w(a)
				if args[i] != a {
					ch = true
				}
			}
			r = t
			if ch || b.refine && t.op == "sub" {
				r = b.rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return w(t)
}

func (b *TB) substBinder(t *Term, m map[*Term]*Term, w func(*Term) *Term) *Term {
	// does anything change?
	ch := false
	for _, a := range t.args {
		for x := range m {
			if contains(a, x) {
				ch = true
			}
		}
	}
	if !ch {
		return t
	}
	l, _ := strconv.Atoi(t.s)
	k := b.freshSym("κ", types.Typ[types.Int])
	m2 := map[*Term]*Term{}
	for x, y := range m {
		m2[x] = y
	}
	m2[b.bv(l)] = k
	switch t.op {
	case "star":
		return b.star(w(t.args[0]), b.subst(t.args[1], m2), k)
	case "sum":
		return b.sum(w(t.args[0]), b.subst(t.args[1], m2), k)
	case "first":
		n := w(t.args[0])
		if n.op == "sym" && n.s == "∞" {
			n = nil
		}
		return b.first(n, b.subst(t.args[1], m2), k)
	case "meach":
		return b.meach(w(t.args[0]), w(t.args[1]), b.subst(t.args[2], m2), b.subst(t.args[3], m2), b.subst(t.args[4], m2), k)
	case "fold":
		// args: n, init.., step..; accumulators α<l>_i
		nv := (len(t.args) - 1) / 2
		accs := make([]*Term, nv)
		for i := range accs {
			acc := b.acc(l, i, t.args[1+i])
			accs[i] = b.freshSym("μ", nil)
			accs[i] = b.mk(Term{op: "sym", kind: acc.kind, s: accs[i].s})
			m2[acc] = accs[i]
		}
		n := w(t.args[0])
		var inits, steps []*Term
		for i := 0; i < nv; i++ {
			inits = append(inits, w(t.args[1+i]))
			steps = append(steps, b.subst(t.args[1+nv+i], m2))
		}
		return b.fold(n, inits, steps, accs, k, t.typ)
	}
	return t
}

func (b *TB) acc(l, i int, init *Term) *Term {
	return b.mk(Term{op: "sym", kind: init.kind, s: fmt.Sprintf("α%d_%d", l, i)})
}

// mergeAccs: accumulators that always have the same value become one (partition refinement).
func (b *TB) mergeAccs(inits, steps, accs []*Term) (i2, s2, a2 []*Term) {
	n := len(accs)
	if n < 2 {
		return inits, steps, accs
	}
	class := make([]int, n)
	for i := range accs {
		class[i] = i
		for j := 0; j < i; j++ {
			if inits[j] == inits[i] && accs[j].kind == accs[i].kind {
				class[i] = j
				break
			}
		}
	}
	for {
		m := map[*Term]*Term{}
		any := false
		for i := range accs {
			if class[i] != i {
				m[accs[i]] = accs[class[i]]
				any = true
			}
		}
		if !any {
			return inits, steps, accs
		}
		ss := make([]*Term, n)
		for i := range accs {
			ss[i] = b.subst(steps[i], m)
		}
		nc := make([]int, n)
		same := true
		for i := range accs {
			nc[i] = i
			for j := 0; j < i; j++ {
				if class[j] == class[i] && ss[j] == ss[i] {
					nc[i] = j
					break
				}
			}
			if nc[i] != class[i] {
				same = false
			}
		}
		if same {
			for i := range accs {
				if class[i] == i {
					i2, s2, a2 = append(i2, inits[i]), append(s2, ss[i]), append(a2, accs[i])
				}
			}
			return i2, s2, a2
		}
		class = nc
	}
}

// fold: value of the first accumulator after n steps.
func (b *TB) fold(n *Term, inits, steps, accs []*Term, k *Term, typ types.Type) *Term {
	inits, steps, accs = b.mergeAccs(inits, steps, accs)
	lv := 0
	for _, s := range steps {
		if s.lvl > lv {
			lv = s.lvl
		}
	}
	lv++
	m := map[*Term]*Term{k: b.bv(lv)}
	for i := range accs {
		m[accs[i]] = b.acc(lv, i, inits[i])
	}
	args := []*Term{n}
	args = append(args, inits...)
	for _, s := range steps {
		args = append(args, b.subst(s, m))
	}
	t := b.mk(Term{op: "fold", kind: inits[0].kind, s: strconv.Itoa(lv), args: args, lvl: lv})
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

// rebuild applies the smart constructors again.
func (b *TB) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "poly":
		r := b.int(0)
		for i, a := range args {
			r = b.add(r, b.scale(a, t.cs[i]))
		}
		return r
	case "mul":
		r := b.int(1)
		for _, a := range args {
			r = b.mul(r, a)
		}
		return r
	case "cat":
		return b.cat(args...)
	case "unit":
		return b.unitLike(args[0])
	case "sub":
		return b.slice(args[0], args[1], args[2])
	case "ite":
		return b.ite(args[0], args[1], args[2])
	case "struct":
		return b.mkStruct(t.s, t.typ, args)
	case "tuple":
		return b.tuple(args)
	case "iface":
		return b.iface(t.aux, t.typ, args[0])
	case "slice":
		return b.mk(Term{op: "slice", kind: 'o', args: args})
	case "app":
		switch t.s {
		case "inv":
			return b.fdiv(b.int(1), args[0])
		case "ge0":
			return b.ge0(args[0])
		case "lt0":
			return b.lt0(args[0])
		case "eq0":
			return b.eq(args[0], b.int(0))
		case "eq":
			return b.eq(args[0], args[1])
		case "isnil":
			return b.eq(args[0], b.nil_())
		case "len":
			if args[0].kind == 's' {
				return b.seqLen(args[0])
			}
		case "idx":
			if args[0].kind == 's' {
				return b.idx(args[0], args[1], t.typ)
			}
		case "mod":
			return b.modT(args[0], args[1])
		case "shr":
			return b.shr(args[0], args[1])
		case "and":
			return b.bitAnd(args[0], args[1])
		case "or":
			return b.bitOr(args[0], args[1])
		case "xor":
			return b.bitXor(args[0], args[1])
		case "idiv":
			return b.idiv(args[0], args[1])
		case "rem":
			return b.irem(args[0], args[1])
		case "mget", "mhas":
			if t.s == "mget" {
				return b.mget(args[0], args[1], t.typ)
			}
			return b.mhas(args[0], args[1])
		case "mput":
			return b.mput(args[0], args[1], args[2])
		}
		switch t.s {
		case "bufseq":
			return b.bufseq(args[0])
		case "*":
			return b.deref(args[0], t.typ)
		case "elems":
			return b.elems(args[0])
		case "mapof":
			return b.mapof(args[0])
		case "runepos":
			return b.runepos(args[0], args[1])
		case "utf8":
			return b.runeStr(args[0])
		case "trunc":
			return b.trunc(args[0], t.typ)
		case "runesstr":
			return b.runesStr(args[0])
		}
		if strings.HasPrefix(t.s, "sint") {
			bits, _ := strconv.Atoi(t.s[4:])
			return b.convInt(args[0], map[int]*types.Basic{8: types.Typ[types.Int8], 16: types.Typ[types.Int16], 32: types.Typ[types.Int32]}[bits])
		}
		if strings.HasPrefix(t.s, ".") {
			return b.fieldNamed(args[0], t.s[1:], t.typ)
		}
		if strings.HasPrefix(t.s, "fmt:") {
			return b.fmtHole(t.s[4:], args[0])
		}
		if f, ok := foldable[t.s]; ok {
			if r := f(b, args); r != nil {
				return r
			}
		}
		// conditionals inside arguments of other applications stay where they are
		r := b.mk(Term{op: "app", kind: t.kind, s: t.s, args: args, aux: t.aux})
		if r.typ == nil {
			r.typ = t.typ
		}
		return r
	}
	r := b.mk(Term{op: t.op, kind: t.kind, s: t.s, r: t.r, args: args, cs: t.cs, aux: t.aux})
	if r.typ == nil {
		r.typ = t.typ
	}
	return r
}

func (b *TB) unitLike(e *Term) *Term {
	if e.isApp("idx") && e.typ != nil {
		if bt, ok := e.typ.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			return b.byteUnit(e)
		}
	}
	return b.unit(e)
}

// fieldNamed: field of an opaque struct term
func (b *TB) fieldNamed(t *Term, name string, typ types.Type) *Term {
	if t.op == "ite" {
		return b.mapIte(t, func(x *Term) *Term { return b.fieldNamed(x, name, typ) })
	}
	if t.op == "struct" {
		if st, ok := t.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return t.args[i]
				}
			}
		}
	}
	return b.app("."+name, typ, t)
}

// ---- maps: values of map objects

// mapv: base map (empty or symbolic) with updates applied, newest last: app("mput", m, k, v)
func (b *TB) mput(m, k, v *Term) *Term {
	if m.isApp("mput") && m.args[1] == k {
		m = m.args[0]
	}
	return b.mk(Term{op: "app", kind: 'o', s: "mput", args: []*Term{m, k, v}})
}

// meach: m with v(j) put under k(j) for j in [0,n) where g(j).
func (b *TB) meach(m, n, g, k, v, j *Term) *Term {
	lv := g.lvl
	for _, x := range []*Term{k, v} {
		if x.lvl > lv {
			lv = x.lvl
		}
	}
	lv++
	s := map[*Term]*Term{j: b.bv(lv)}
	if c, ok := n.intVal(); ok && c <= 0 {
		return m
	}
	return b.mk(Term{op: "meach", kind: 'o', s: strconv.Itoa(lv), args: []*Term{m, n, b.subst(g, s), b.subst(k, s), b.subst(v, s)}, lvl: lv})
}

func (b *TB) mget(m, k *Term, typ types.Type) *Term {
	if m.op == "ite" || k.op == "ite" {
		return b.lift2(m, k, func(m, k *Term) *Term { return b.mget(m, k, typ) })
	}
	switch {
	case m.isApp("mput"):
		e := b.eq(m.args[1], k)
		return b.ite(e, m.args[2], b.mget(m.args[0], k, typ))
	case m.isApp("mempty"):
		return zeroTerm(b, typ)
	case m.op == "meach":
		// stored under the loop position itself: the entry of position k
		l, _ := strconv.Atoi(m.s)
		if m.args[3] == b.bv(l) {
			in := b.and(b.and(b.ge0(k), b.ge0(b.sub(b.sub(m.args[1], k), b.int(1)))), b.subst(m.args[2], map[*Term]*Term{b.bv(l): k}))
			return b.ite(in, b.subst(m.args[4], map[*Term]*Term{b.bv(l): k}), b.mget(m.args[0], k, typ))
		}
	}
	return b.app("mget", typ, m, k)
}

func (b *TB) mhas(m, k *Term) *Term {
	if m.op == "ite" || k.op == "ite" {
		return b.lift2(m, k, b.mhas)
	}
	switch {
	case m.isApp("mput"):
		return b.or(b.eq(m.args[1], k), b.mhas(m.args[0], k))
	case m.isApp("mempty"), m.isNil():
		return b.F()
	}
	return b.appK("mhas", 'b', m, k)
}

func zeroTerm(b *TB, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch kindOf(t) {
		case 'n':
			return b.int(0)
		case 'b':
			return b.F()
		case 's':
			return b.str("")
		}
		return b.nil_()
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "bytes.Buffer", "strings.Builder":
				return b.mkStruct("buf", t, []*Term{b.str("")})
			}
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroTerm(b, u.Field(i).Type())
		}
		return b.mkStruct(types.TypeString(t, nil), t, args)
	case *types.Array:
		z := zeroTerm(b, u.Elem())
		var un *Term
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			un = b.byteUnit(z)
		} else {
			un = b.unit(z)
		}
		k := b.freshSym("κz", types.Typ[types.Int])
		return b.star(b.int(u.Len()), un, k)
	}
	return b.nil_()
}

// fmtHole: text of x formatted with a verb
func (b *TB) fmtHole(verb string, x *Term) *Term {
	if x.op == "ite" {
		return b.mapIte(x, func(y *Term) *Term { return b.fmtHole(verb, y) })
	}
	if x.op == "num" {
		if v, ok := x.intVal(); ok && !strings.ContainsAny(verb, "fge") {
			return b.str(fmt.Sprintf(verb, v))
		}
		f, _ := x.r.Float64()
		if strings.ContainsAny(verb, "fge") {
			return b.str(fmt.Sprintf(verb, f))
		}
	}
	return b.appK("fmt:"+verb, 's', x)
}

var foldable = map[string]func(b *TB, a []*Term) *Term{}

// ---- printing

func (t *Term) String() string { return t.show(0) }
func (t *Term) show(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.op {
	case "num":
		return t.r.RatString()
	case "bool", "sym":
		return t.s
	case "str":
		return strconv.Quote(t.s)
	case "nil":
		return "nil"
	case "poly":
		var ps []string
		for i, a := range t.args {
			c := t.cs[i]
			switch {
			case a.op == "num":
				ps = append(ps, c.RatString())
			case c.Cmp(ratOne) == 0:
				ps = append(ps, a.show(d+1))
			default:
				ps = append(ps, c.RatString()+"*"+a.show(d+1))
			}
		}
		return "(" + strings.Join(ps, " + ") + ")"
	case "mul":
		var ps []string
		for _, a := range t.args {
			ps = append(ps, a.show(d+1))
		}
		return strings.Join(ps, "*")
	case "cat":
		var ps []string
		for _, a := range t.args {
			ps = append(ps, a.show(d+1))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case "ite":
		return "if(" + t.args[0].show(d+1) + ", " + t.args[1].show(d+1) + ", " + t.args[2].show(d+1) + ")"
	case "sub":
		return t.args[0].show(d+1) + "[" + t.args[1].show(d+1) + ":" + t.args[2].show(d+1) + "]"
	case "ptr":
		s := "&" + fmt.Sprint(t.aux.(*Obj).name)
		for _, a := range t.args {
			s += "." + a.show(d+1)
		}
		return s
	}
	var ps []string
	for _, a := range t.args {
		ps = append(ps, a.show(d+1))
	}
	n := t.op
	if t.op == "app" || t.op == "struct" {
		n = t.s
		if i := strings.LastIndex(n, "/"); i >= 0 && t.op == "struct" {
			n = n[i+1:]
		}
	} else if t.s != "" {
		n += "^" + t.s
	}
	if t.op == "app" && strings.HasPrefix(t.s, ".") && len(t.args) == 1 {
		return ps[0] + t.s
	}
	return n + "(" + strings.Join(ps, ", ") + ")"
}
