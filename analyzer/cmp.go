package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparison of two value graphs over the same inputs. Three answers: the same value on every input; different on
// some input, with the place where they part; or not decided (different forms the analysis cannot relate).
type verdict int

const (
	vSame verdict = iota
	vDiff
	vUnk
)

func (v verdict) String() string { return [...]string{"same", "different", "undecided"}[v] }

type lit struct {
	a   *Term
	v   bool
	inX bool
	inY bool
}

type cmpr struct {
	pc     *Term // holds throughout
	e      *Eng
	b      *TB
	budget int
	ws     bool // white space between PDF tokens does not matter
	bits   map[string]bool
	trail  []lit
	why    string
	unk    string
	fresh  int
	vac    int // paths found to be impossible
	depth  int
	nest   int
	dx, dy []*Term
	clos   map[[2]*Term]bool
	memo   map[string]verdict
	cur    *Term      // the precondition on the current path
	assume []*Term    // linear facts (>= 0) of the common precondition
	insts  [][2]*Term // what was chosen for a small instance
	tops   [2]*Term
	kinds  [2]map[string]bool // what the whole values are made of, see wholly
}

func newCmp(e *Eng) *cmpr {
	return &cmpr{e: e, b: e.b, budget: 60000, memo: map[string]verdict{}}
}

func short(t *Term) string {
	s := t.show(8)
	if len(s) > 220 {
		s = s[:220] + "…"
	}
	return s
}

func (c *cmpr) diff(f string, a ...any) verdict {
	if c.impossible() {
		return vSame
	}
	if !c.feasible() {
		return c.undec("difference only on a path that may be impossible")
	}
	if c.why == "" {
		c.why = fmt.Sprintf(f, a...)
		var ls []string
		for _, l := range c.trail {
			s := short(l.a)
			if !l.v {
				s = "not " + s
			}
			ls = append(ls, s)
		}
		if len(ls) > 0 {
			c.why += " (when " + strings.Join(ls, " and ") + ")"
		}
	}
	return vDiff
}

// impossible: the assumptions of the path contradict each other or the precondition.
func (c *cmpr) impossible() bool {
	if len(c.trail) > 0 && (!c.linFeasible() || !c.pcFeasible()) {
		c.vac++
		return true
	}
	if c.firstsClash() || c.bitsClash() {
		c.vac++
		return true
	}
	// the same question answered in two ways
	if c.nest < 3 {
		c.nest++
		defer func() { c.nest-- }()
		for i, l := range c.trail {
			if l.a.op != "app" || l.a.isApp("ge0") || l.a.isApp("lt0") || l.a.isApp("eq0") || l.a.isApp("eq") {
				continue
			}
			for _, m := range c.trail[i+1:] {
				if m.v != l.v && m.a.op == "app" && m.a.s == l.a.s && len(m.a.args) == len(l.a.args) && c.cmpWithout(l.a, m.a) == vSame {
					c.vac++
					return true
				}
			}
		}
	}
	return false
}

// bitsClash: no number has the low bits that the path asks of it.
func (c *cmpr) bitsClash() bool {
	b := c.b
	about := map[*Term][]lit{}
	var order []*Term
	for _, l := range c.trail {
		var leaf *Term
		ok := true
		var w func(*Term)
		w = func(t *Term) {
			if (t.isApp("and") || t.isApp("mod")) && t.args[1].op == "num" {
				m, isInt := t.args[1].intVal()
				if t.isApp("mod") {
					m--
				}
				if leaf == nil || leaf == t.args[0] {
					leaf = t.args[0]
				} else {
					ok = false
				}
				ok = ok && isInt && m >= 0 && m < 256 && (t.isApp("and") || m&(m+1) == 0)
				return
			}
			if t.op != "num" && t.op != "poly" && !t.isApp("eq0") && !t.isApp("ge0") && !t.isApp("eq") {
				ok = false
				return
			}
			for _, a := range t.args {
				w(a)
			}
		}
		w(l.a)
		if ok && leaf != nil {
			if about[leaf] == nil {
				order = append(order, leaf)
			}
			about[leaf] = append(about[leaf], l)
		}
	}
leaves:
	for _, leaf := range order {
		if len(about[leaf]) < 2 {
			continue
		}
		key := fmt.Sprint(leaf.id)
		for _, l := range about[leaf] {
			key += fmt.Sprint(" ", l.a.id, l.v)
		}
		if r, ok := c.bits[key]; ok {
			if r {
				return true
			}
			continue
		}
		if c.bits == nil {
			c.bits = map[string]bool{}
		}
	next:
		for n := int64(0); n < 256; n++ {
			m := map[*Term]*Term{leaf: b.int(n)}
			for _, l := range about[leaf] {
				if t := b.subst(l.a, m); t.op != "bool" || t.isTrue() != l.v {
					continue next
				}
			}
			c.bits[key] = false
			continue leaves
		}
		c.bits[key] = true
		return true
	}
	return false
}

// firstsClash: the path has the first element of one kind at the place of the first one of another kind, and no
// element is of both.
func (c *cmpr) firstsClash() bool {
	b := c.b
	var fs []*Term
	for _, l := range c.trail {
		if !l.v || !l.a.isApp("eq0") {
			continue
		}
		ks, _ := b.polyParts(l.a.args[0])
		for _, k := range ks {
			if k.op == "first" && !hasTerm(fs, k) {
				fs = append(fs, k)
			}
		}
	}
	for i, f := range fs {
		for _, g := range fs[i+1:] {
			if f.args[0] != g.args[0] || f.s != g.s || !b.and(f.args[1], g.args[1]).isFalse() {
				continue
			}
			one := b.int(1)
			if !c.linRows([]*Term{b.sub(b.sub(f, g), one)}) && !c.linRows([]*Term{b.sub(b.sub(g, f), one)}) {
				return true // or there is neither, and no element to speak of
			}
		}
	}
	return false
}

func (c *cmpr) undec(f string, a ...any) verdict {
	if c.impossible() {
		return vSame
	}
	if c.unk == "" || os.Getenv("VERIF_DEBUG") == "2" {
		s := fmt.Sprintf(f, a...)
		if c.unk == "" {
			c.unk = s
		} else if len(c.unk) < 4000 {
			c.unk += "\n   " + s
		}
	}
	return vUnk
}

// worst: all parts have to agree
func join(vs ...verdict) verdict {
	r := vSame
	for _, v := range vs {
		if v == vDiff {
			return vDiff
		}
		if v == vUnk {
			r = vUnk
		}
	}
	return r
}

// with: t under an assumption about an atom.
func (c *cmpr) with(a *Term, v bool, ts ...*Term) []*Term {
	b := c.b
	m := map[*Term]*Term{a: b.bool(v)}
	if a.op == "app" {
		switch {
		case a.s == "eq0" && v:
			c.solveFor(a.args[0], m)
		case a.s == "eq" && v:
			x, y := a.args[0], a.args[1]
			if y.op == "sym" || y.op == "app" && x.op != "sym" && x.op != "app" {
				x, y = y, x
			}
			if (x.op == "sym" || x.op == "app") && !contains(y, x) {
				m[x] = y
			}
		case a.s == "mhas" && !v:
			// an absent entry reads as the zero value
			for _, t := range ts {
				c.eachGet(t, a.args[0], a.args[1], func(g *Term) { m[g] = zeroTerm(b, g.typ) })
			}
		case a.s == "isnil" && !v && a.args[0].isApp("mget"):
			m[b.mhas(a.args[0].args[0], a.args[0].args[1])] = b.T()
		case a.s == "isnil" && v:
			x := a.args[0]
			if x.op == "sym" || x.op == "app" {
				m[x] = b.nil_()
			}
		case a.s == "ge0" && !v:
			// x-1 >= 0 is false and x >= 0 always: x = 0
			t := a.args[0]
			ks, cs := b.polyParts(t)
			if len(ks) == 2 {
				for i, k := range ks {
					if k.op != "num" && ks[1-i].op == "num" && cs[i].Cmp(ratOne) == 0 && cs[1-i].Cmp(big.NewRat(-1, 1)) == 0 && b.nonnegAtom(k) {
						m[k] = b.int(0)
					}
				}
			}
		}
	}
	if a.isApp("ge0") {
		// a part that does not end after it begins is empty
		d := a.args[0]
		if !v {
			d = b.sub(b.neg(d), b.int(1))
		}
		seen := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "sub" && len(t.args) == 3 {
				if r := b.sub(b.sub(t.args[1], t.args[2]), d); r.op == "num" && r.r.Sign() >= 0 {
					m[t] = b.str("")
				}
			}
			for _, x := range t.args {
				w(x)
			}
		}
		for _, t := range ts {
			w(t)
		}
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = b.subst(t, m)
	}
	return out
}

func (c *cmpr) eachGet(t, mp, k *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.isApp("mget") && t.args[0] == mp && t.args[1] == k && t.typ != nil {
			f(t)
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
}

// solveFor: from poly = 0, an atom and its value.
func (c *cmpr) solveFor(p *Term, m map[*Term]*Term) {
	b := c.b
	ks, cs := b.polyParts(p)
	best := -1
	for i, k := range ks {
		if k.op == "num" || k.op == "mul" {
			continue
		}
		rest := b.sub(p, b.scale(k, cs[i]))
		if contains(rest, k) {
			continue
		}
		if !cs[i].IsInt() || new(big.Rat).Abs(cs[i]).Cmp(ratOne) != 0 {
			continue
		}
		if best < 0 || k.size > ks[best].size {
			best = i
		}
	}
	if best < 0 {
		return
	}
	k := ks[best]
	rest := b.sub(p, b.scale(k, cs[best]))
	m[k] = b.scale(rest, new(big.Rat).Neg(new(big.Rat).Inv(cs[best])))
}

func occurs(t, a *Term) bool { return contains(t, a) }

// innerAtom: an atom of a conditional somewhere in the sequence structure of t.
func seqAtom(t *Term) *Term {
	for _, s := range segsOf(t) {
		if s.op == "ite" {
			return s.args[0]
		}
	}
	return nil
}

func (c *cmpr) decided(a *Term) (bool, bool) {
	b := c.b
	if c.pc != nil {
		if b.implies(c.pc, a) {
			return true, true
		}
		if b.implies(c.pc, b.not(a)) {
			return false, true
		}
	}
	if !(a.isApp("ge0") || a.isApp("eq0")) {
		return false, false
	}
	old := b.facts
	b.facts = c.facts()
	defer func() { b.facts = old }()
	t := a.args[0]
	if a.s == "ge0" {
		if b.prove(t) {
			return true, true
		}
		if b.prove(b.sub(b.neg(t), b.int(1))) {
			return false, true
		}
		return false, false
	}
	if isIntTerm(b, t) && (b.prove(b.sub(t, b.int(1))) || b.prove(b.sub(b.neg(t), b.int(1)))) {
		return false, true
	}
	return false, false
}

func (c *cmpr) facts() []*Term {
	b := c.b
	out := append([]*Term{}, c.assume...)
	for _, l := range c.trail {
		switch {
		case l.a.isApp("ge0"):
			if l.v {
				out = append(out, l.a.args[0])
			} else {
				out = append(out, b.sub(b.neg(l.a.args[0]), b.int(1)))
			}
		case l.a.isApp("eq0") && l.v:
			out = append(out, l.a.args[0], b.neg(l.a.args[0]))
		}
	}
	return out
}

func (c *cmpr) split(a *Term, x, y *Term, f func(x, y *Term) verdict) verdict {
	if v, ok := c.decided(a); ok {
		r := c.with(a, v, x, y)
		return f(r[0], r[1])
	}
	inX, inY := occurs(x, a), occurs(y, a)
	var vs [2]verdict
	cur, assume := c.cur, c.assume
	defer func() { c.cur, c.assume = cur, assume }()
	for i, v := range []bool{true, false} {
		c.trail = append(c.trail, lit{a, v, inX, inY})
		if c.pc != nil {
			if cur == nil {
				cur = c.pc
			}
			if c.cur = c.with(a, v, cur)[0]; c.cur != cur && !c.cur.isFalse() {
				c.assume = assume
				for _, t := range c.e.factsOf(c.cur) {
					if !hasTerm(c.assume, t) {
						c.assume = append(c.assume[:len(c.assume):len(c.assume)], t)
					}
				}
			}
		}
		b := c.b
		old, ref := b.facts, b.refine
		b.facts, b.refine = c.facts(), true
		r := c.with(a, v, x, y)
		b.facts, b.refine = old, ref
		vs[i] = f(r[0], r[1])
		c.trail = c.trail[:len(c.trail)-1]
		c.cur, c.assume = cur, assume
		if vs[i] == vDiff {
			return vDiff
		}
	}
	return join(vs[0], vs[1])
}

// cmp compares two terms.
func (c *cmpr) cmp(x, y *Term) verdict {
	if x == y {
		return vSame
	}
	c.budget--
	if c.budget < 0 {
		return c.undec("too large")
	}
	key := ""
	if len(c.trail) == 0 || true {
		key = fmt.Sprintf("%d,%d", x.id, y.id)
		if v, ok := c.memo[key]; ok && v == vSame {
			return v
		}
	}
	c.depth++
	vac := c.vac
	v := c.cmp1(x, y)
	if v == vUnk && c.sampled(x, y) {
		v = vDiff
	}
	c.depth--
	if v == vSame && (vac == c.vac || len(c.trail) == 0) {
		c.memo[key] = v
	}
	return v
}

// cmpWeak: x implies y. Calls of the same function with other arguments are not told apart.
func (c *cmpr) cmpWeak(x, y *Term) verdict {
	if x == y || x.isFalse() || y.isTrue() {
		return vSame
	}
	c.budget--
	if c.budget < 0 {
		return c.undec("too large")
	}
	kx, ky := bddTop(x), bddTop(y)
	a := kx
	if a == nil || ky != nil && ky.id < a.id {
		a = ky
	}
	if a == nil {
		return c.diff("%s instead of %s", short(x), short(y))
	}
	if kx == x && ky == y && x.op == "app" && y.op == "app" {
		if v := c.cmpAtom(x, y); v != vDiff {
			return v
		}
		c.why = ""
		return c.undec("%s and %s", short(x), short(y))
	}
	return c.split(a, x, y, c.cmpWeak)
}

func (c *cmpr) cmp1(x, y *Term) verdict {
	b := c.b
	if ux, uy := c.openUpd(x), c.openUpd(y); ux != nil || uy != nil {
		if ux != nil {
			x = ux
		}
		if uy != nil {
			y = uy
		}
		return c.cmp(x, y)
	}
	if x.kind == 'b' && y.kind == 'b' || x.op == "ite" || y.op == "ite" {
		var a *Term
		for _, t := range []*Term{x, y} {
			if k := bddTop(t); k != nil && (t.op == "ite" || t.kind == 'b') && (a == nil || k.id < a.id) {
				a = k
			}
		}
		if a == nil {
			return c.diff("%s instead of %s", short(x), short(y))
		}
		// two atoms of the same form: compare them as such
		if bddTop(x) == x && bddTop(y) == y && x.op == "app" && y.op == "app" {
			return c.cmpAtom(x, y)
		}
		return c.split(a, x, y, c.cmp)
	}
	if x.kind == 'n' && y.kind == 'n' {
		return c.cmpNum(x, y)
	}
	if x.kind == 's' && y.kind == 's' {
		return c.cmpSeq(x, y)
	}
	// nil slices and empty ones hold the same elements
	if x.isNil() && y.isApp("sl") && y.args[0].isStr() && y.args[0].s == "" || y.isNil() && x.isApp("sl") && x.args[0].isStr() && x.args[0].s == "" {
		return vSame
	}
	if x.op == "struct" || y.op == "struct" {
		if x.op == "struct" && y.op == "struct" {
			if x.s != y.s || len(x.args) != len(y.args) {
				return c.undec("structs %s and %s", x.s, y.s)
			}
			return c.cmpArgs(x.args, y.args)
		}
		s, o := x, y
		if y.op == "struct" {
			s, o = y, x
		}
		if o.op == "app" || o.op == "sym" {
			if ex := b.expandLike(s, o); ex != nil {
				if s == x {
					return c.cmpArgs(s.args, ex)
				}
				return c.cmpArgs(ex, s.args)
			}
		}
		if o.isNil() {
			return c.diff("%s instead of %s", short(x), short(y))
		}
		return c.undec("%s and %s", short(x), short(y))
	}
	if x.op == "tuple" && y.op == "tuple" && len(x.args) == len(y.args) {
		return c.cmpArgs(x.args, y.args)
	}
	if x.op == "iface" && y.op == "iface" {
		if x.aux != y.aux {
			return c.diff("dynamic type %v instead of %v", x.typ, y.typ)
		}
		return c.cmp(x.args[0], y.args[0])
	}
	if x.isNil() != y.isNil() {
		o := x
		if x.isNil() {
			o = y
		}
		switch {
		case b.eq(o, b.nil_()).isFalse():
			return c.diff("%s instead of %s", short(x), short(y))
		case c.input(o):
			return c.diff("%s instead of %s", short(x), short(y))
		}
		return c.undec("%s and %s", short(x), short(y))
	}
	// the contents of slices, pointers, maps
	if x.isApp("sl") || y.isApp("sl") {
		ex, ey := b.elems(x), b.elems(y)
		if ex != x && ey != y && !(ex.isApp("elems") && ey.isApp("elems")) {
			return c.cmp(ex, ey)
		}
	}
	if x.isApp("mp") || y.isApp("mp") {
		return c.cmp(b.mapof(x), b.mapof(y))
	}
	if x.isApp("ref") != y.isApp("ref") {
		return c.cmp(b.deref(x, typeOfRef(x, y)), b.deref(y, typeOfRef(x, y)))
	}
	return c.cmpApp(x, y)
}

func typeOfRef(x, y *Term) types.Type {
	for _, t := range []*Term{x, y} {
		if t.isApp("ref") {
			return t.args[0].typ
		}
	}
	return nil
}

func (c *cmpr) cmpArgs(xs, ys []*Term) verdict {
	r := vSame
	for i := range xs {
		v := c.cmp(xs[i], ys[i])
		if v == vDiff {
			return vDiff
		}
		r = join(r, v)
	}
	return r
}

// cmpAtom: two conditions.
func (c *cmpr) cmpAtom(x, y *Term) verdict {
	if x.s == y.s && len(x.args) == len(y.args) {
		switch x.s {
		case "ge0", "lt0", "eq0":
			// comparisons with zero: the same sets only if the polynomials are proportional, which is normalised away
			v := c.cmpNum(x.args[0], y.args[0])
			if v == vDiff {
				if !c.arith(x) || !c.arith(y) {
					c.why = ""
					return c.split(x, x, y, c.cmpB)
				}
			}
			return v
		case "eq", "isnil":
		default:
			return c.cmpArgs(x.args, y.args)
		}
	}
	a := x
	if y.id < x.id {
		a = y
	}
	return c.split(a, x, y, c.cmpB)
}

func (c *cmpr) cmpB(x, y *Term) verdict {
	if x == y {
		return vSame
	}
	if x.op == "bool" && y.op == "bool" {
		return c.diff("condition is %s instead of %s", x.s, y.s)
	}
	var a *Term
	for _, t := range []*Term{x, y} {
		if k := bddTop(t); k != nil && (a == nil || k.id < a.id) {
			a = k
		}
	}
	return c.split(a, x, y, c.cmpB)
}

// input: built from the inputs alone (fields, elements, lengths, map entries of parameters), so that two different
// such terms can have different values.
func (c *cmpr) input(t *Term) bool {
	switch t.op {
	case "sym":
		return true
	case "num", "str", "bool", "nil":
		return true
	case "app":
		switch {
		case strings.HasPrefix(t.s, "."), t.s == "*", t.s == "elems", t.s == "mapof", t.s == "idx", t.s == "mget", t.s == "mhas", t.s == "bufseq", t.s == "len", t.s == "runes", t.s == "file":
			for _, a := range t.args {
				if !c.input(a) {
					return false
				}
			}
			return true
		}
	case "poly", "mul":
		for _, a := range t.args {
			if !c.input(a) {
				return false
			}
		}
		return true
	}
	return false
}

// place: memory as it was found: inputs, and what the results of uninterpreted calls refer to.
func (c *cmpr) place(t *Term) bool {
	if c.input(t) {
		return true
	}
	if t.op != "app" {
		return false
	}
	switch {
	case strings.HasPrefix(t.s, ".") && t.args[0].isApp("idx") && !c.place(t.args[0]):
		// a field of an element, when it has no part in the choice of the element
		return c.place(t.args[0].args[0]) && !hasApp(t.args[0].args[1], t.s)
	case strings.HasPrefix(t.s, "."), t.s == "elems", t.s == "mapof", t.s == "bufseq":
		return len(t.args) == 1 && c.place(t.args[0])
	case t.s == "*":
		a := t.args[0]
		return c.place(a) || a.op == "app" && strings.HasPrefix(a.s, "call:")
	}
	return false
}

func hasApp(t *Term, s string) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.isApp(s) {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// fxRoot: the uninterpreted call that left this value behind.
func fxRoot(t *Term) *Term {
	for t.op == "app" && len(t.args) > 0 {
		switch {
		case strings.HasPrefix(t.s, "fx:"):
			return t
		case t.s == "*" && t.args[0].op == "app" && strings.HasPrefix(t.args[0].s, "call:"):
			return t.args[0]
		case strings.HasPrefix(t.s, "."), t.s == "elems", t.s == "mapof", t.s == "bufseq":
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

func fxFn(t *Term) string {
	if strings.HasPrefix(t.s, "call:") {
		s, _, _ := strings.Cut(t.s, "#")
		return s
	}
	s := strings.TrimPrefix(t.s, "fx:")
	if i := strings.LastIndexByte(s, ':'); i > 0 && !strings.HasPrefix(s, "fnvalue") {
		s = s[:i]
	}
	return s
}

// wholly: what the cases of a value are: memory as it was found, left behind by which calls, parts of the other
// value, or made otherwise ("").
func (c *cmpr) wholly(t, other *Term) map[string]bool {
	parts := map[*Term]bool{}
	var p func(*Term)
	p = func(t *Term) {
		if !parts[t] {
			parts[t] = true
			for _, a := range t.args {
				p(a)
			}
		}
	}
	p(other)
	out := map[string]bool{}
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == "ite":
			w(t.args[1])
			w(t.args[2])
			return
		}
		if r := fxRoot(t); r != nil {
			out[fxFn(r)] = true
		} else if !parts[t] && !c.place(t) {
			out[""] = true
		}
	}
	w(t)
	return out
}

// skipped: one value is what the other was before an uninterpreted call changed it.
func (c *cmpr) skipped(x, y *Term) bool {
	before := func(x, y *Term, top int) bool {
		r := fxRoot(y)
		if r == nil || c.tops[top] == nil {
			return false
		}
		q := fxRoot(x)
		if q != nil && fxFn(q) == fxFn(r) {
			return false
		}
		if q != nil || !c.place(x) {
			if q == nil {
				q = x
			}
			in := false
			for _, a := range r.args {
				in = in || contains(a, q)
			}
			if !in {
				return false
			}
		}
		// the code that does not make the call does not do its work in another way
		k := c.kinds[top]
		if k == nil {
			k = c.wholly(c.tops[top], c.tops[1-top])
			c.kinds[top] = k
		}
		return k[fxFn(r)] || !k[""]
	}
	return before(x, y, 0) || before(y, x, 1)
}

// arith: an arithmetic condition over inputs
func (c *cmpr) arith(t *Term) bool {
	return (t.isApp("ge0") || t.isApp("lt0") || t.isApp("eq0")) && c.input(t.args[0])
}

// value functions: different on some argument from each other and from their own argument.
var valueFns = map[string]bool{"zlib": true, "unzlib": true, "md5": true, "rc4": true, "rc4at": true, "base64dec": true, "base64enc": true,
	"ToUpper": true, "ToLower": true, "TrimSpace": true, "utf8": true, "runes": true, "atoi": true, "parseint": true, "parsefloat": true, "trunc": true, "round": true, "floor": true, "ceil": true,
	"Replace": true, "TrimPrefix": true, "TrimSuffix": true, "Trim": true, "TrimLeft": true, "TrimRight": true, "sorted": true, "mod": true, "idiv": true, "rem": true, "shr": true, "sint8": true, "sint16": true, "sint32": true,
	"bigbytes": true, "inv": true, "imgconfig": true, "imgformat": true, "abs": true, "mempty": true, "mput": true, "join": true, "split": true, "fields": true, "Index": true, "LastIndex": true}

func isFmt(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.s, "fmt:") }

func (c *cmpr) cmpApp(x, y *Term) verdict {
	if isBinder(x.op) && isBinder(y.op) {
		if x.op != y.op {
			return c.undec("%s and %s", short(x), short(y))
		}
		return c.cmpBinder(x, y)
	}
	if (isBinder(x.op) || isBinder(y.op)) && !c.skipped(x, y) {
		return c.undec("%s and %s", short(x), short(y))
	}
	if x.op == "unit" && y.op == "unit" {
		return c.cmp(x.args[0], y.args[0])
	}
	if x.op == "sub" && y.op == "sub" {
		if x.args[0] == y.args[0] {
			return join(c.cmpNum(x.args[1], y.args[1]), c.cmpNum(x.args[2], y.args[2]))
		}
		if x.args[1] == y.args[1] && x.args[2] == y.args[2] {
			if x.args[0].op == "cat" || y.args[0].op == "cat" {
				// parts of different lists can be the same
				if c.cmpQuiet(x.args[0], y.args[0]) == vSame {
					return vSame
				}
				return c.undec("%s and %s", short(x), short(y))
			}
			return c.cmp(x.args[0], y.args[0])
		}
		if c.input(x.args[0]) && c.input(y.args[0]) && c.input(x.args[1]) && c.input(y.args[1]) {
			return c.diff("%s instead of %s", short(x), short(y))
		}
		return c.undec("%s and %s", short(x), short(y))
	}
	if isClo(x) || isClo(y) {
		return c.cmpClo(x, y)
	}
	if x.op == "app" && y.op == "app" && x.s == y.s && len(x.args) == len(y.args) {
		switch x.s {
		case "len", "maplen":
			if c.input(x) && c.input(y) {
				return c.diff("%s instead of %s", short(x), short(y))
			}
			v := c.cmpQuiet(x.args[0], y.args[0])
			if v == vSame {
				return v
			}
			return c.undec("%s and %s", short(x), short(y))
		case "mput":
			return c.cmpMap(x, y)
		}
		return c.cmpArgs(x.args, y.args)
	}
	if c.input(x) && c.input(y) {
		return c.diff("%s instead of %s", short(x), short(y))
	}
	if c.skipped(x, y) {
		return c.diff("%s instead of %s", short(x), short(y))
	}
	if x.isApp("mput") || y.isApp("mput") {
		return c.cmpMap(x, y)
	}
	vx, vy := x.op == "app" && valueFns[x.s], y.op == "app" && valueFns[y.s]
	if vx && (vy && x.s != y.s || c.input(y)) || vy && c.input(x) {
		if x.kind == y.kind {
			return c.diff("%s instead of %s", short(x), short(y))
		}
	}
	if x.kind == y.kind {
		if f, g := c.callRoot(x), c.callRoot(y); f != "" && g != "" && f != g {
			return c.diff("%s instead of %s", short(x), short(y))
		}
	}
	if x.kind == y.kind && (vx && c.changed(x, y) || vy && c.changed(y, x)) {
		return c.diff("%s instead of %s", short(x), short(y))
	}
	return c.undec("%s and %s", short(x), short(y))
}

// changed: a text of the input and what a function makes of it.
func (c *cmpr) changed(f, t *Term) bool {
	if len(f.args) == 0 || f.args[0] != t || t.kind != 's' {
		return false
	}
	return t.op == "sub" && c.place(t.args[0]) || c.place(t)
}

func isClo(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.s, "clo:") && t.aux != nil }

// cmpClo: function values, compared by what they compute on common arguments.
func (c *cmpr) cmpClo(x, y *Term) verdict {
	f := x
	if !isClo(f) {
		f = y
	}
	fn := f.aux.(*ssa.Function)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, c.b.freshSym("φ", p.Type()))
	}
	key := [2]*Term{x, y}
	if c.clos[key] {
		return vSame
	}
	if c.clos == nil {
		c.clos = map[[2]*Term]bool{}
	}
	c.clos[key] = true
	defer delete(c.clos, key)
	var effs [][]*Term
	apply := func(t *Term) (*Term, *Term, bool) {
		e := c.e
		st := &State{heap: map[*Obj]*Term{}, pc: c.b.T()}
		e.stack = nil
		if !isClo(t) {
			if !c.input(t) {
				return nil, nil, false
			}
			r, alive := e.opaqueCall(st, "fnvalue", nil, append([]*Term{t}, args...), nil, fn.Signature)
			return r, st.pc, alive
		}
		g := t.aux.(*ssa.Function)
		if len(g.Params) != len(args) {
			return nil, nil, false
		}
		var free []*Term
		var cells []*Obj
		for _, a := range t.args {
			if a.isApp("ref") {
				o := e.newObj('v', "free", a.args[0].typ, a.args[0])
				st.heap[o] = a.args[0]
				a = e.ptr(o)
				cells = append(cells, o)
			}
			free = append(free, a)
		}
		r, alive := e.inline(g, args, free, st)
		if r != nil && alive {
			r = e.box(st, r)
		}
		var eff []*Term
		for _, o := range cells {
			eff = append(eff, e.box(st, e.content(st, o)))
		}
		effs = append(effs, eff)
		return r, st.pc, alive
	}
	rx, px, ox := apply(x)
	ry, py, oy := apply(y)
	if !ox || !oy || rx == nil || ry == nil {
		return c.undec("functions %s and %s", short(x), short(y))
	}
	if v := c.cmp(px, py); v != vSame {
		return v
	}
	v := c.cmp(rx, ry)
	if v == vSame && len(effs) == 2 && len(effs[0]) == len(effs[1]) {
		// what they leave behind in captured variables
		v = join(v, c.cmpArgs(effs[0], effs[1]))
	}
	return v
}

func (c *cmpr) cmpQuiet(x, y *Term) verdict {
	w, u := c.why, c.unk
	v := c.cmp(x, y)
	c.why, c.unk = w, u
	return v
}

// cmpMap: chains of updates of the same base map.
func (c *cmpr) cmpMap(x, y *Term) verdict {
	chain := func(t *Term) (base *Term, ks, vs []*Term) {
		for t.isApp("mput") {
			ks = append([]*Term{t.args[1]}, ks...)
			vs = append([]*Term{t.args[2]}, vs...)
			t = t.args[0]
		}
		return t, ks, vs
	}
	bx, kx, vx := chain(x)
	by, ky, vy := chain(y)
	if bx != by {
		if v := c.cmp(bx, by); v != vSame {
			if v == vDiff && len(kx) == 0 && len(ky) == 0 {
				return v
			}
			c.why = ""
			return c.undec("maps %s and %s", short(x), short(y))
		}
	}
	if len(kx) == len(ky) {
		r := vSame
		for i := range kx {
			r = join(r, c.cmp(kx[i], ky[i]))
			if r != vSame {
				return r
			}
			r = join(r, c.cmp(vx[i], vy[i]))
			if r != vSame {
				return r
			}
		}
		return r
	}
	return c.diff("%d entries are put into the map instead of %d", len(kx), len(ky))
}

// cmpBinder compares repetitions, sums, searches and folds at a common position.
func (c *cmpr) cmpBinder(x, y *Term) verdict {
	b := c.b
	k := b.freshSym("κc", types.Typ[types.Int])
	lx, _ := strconv.Atoi(x.s)
	ly, _ := strconv.Atoi(y.s)
	mx, my := map[*Term]*Term{b.bv(lx): k}, map[*Term]*Term{b.bv(ly): k}
	switch x.op {
	case "star", "sum", "first":
		nv := c.cmp(x.args[0], y.args[0])
		if nv == vDiff {
			if x.op == "first" {
				return nv
			}
			// other bounds, other bodies: a loop counted differently
			w := c.why
			bv := c.cmpQuiet(b.subst(x.args[1], mx), b.subst(y.args[1], my))
			c.why = w
			if bv == vSame {
				return vDiff
			}
			c.why = ""
			return c.undec("%s and %s", short(x), short(y))
		}
		na := len(c.assume)
		// 0 <= k < n
		c.assume = append(c.assume, b.sub(b.sub(x.args[0], k), b.int(1)))
		bv := c.cmp(b.subst(x.args[1], mx), b.subst(y.args[1], my))
		c.assume = c.assume[:na]
		if nv == vSame {
			if bv != vSame && x.op == "sum" {
				// added up from the other end
				my[b.bv(ly)] = b.sub(b.sub(x.args[0], k), b.int(1))
				w := c.why
				if c.cmpQuiet(b.subst(x.args[1], mx), b.subst(y.args[1], my)) == vSame {
					return vSame
				}
				c.why = w
			}
			return bv
		}
		if bv == vDiff {
			c.why = ""
		}
		return c.undec("%s and %s", short(x), short(y))
	case "meach":
		r := join(c.cmp(x.args[0], y.args[0]), c.cmp(x.args[1], y.args[1]))
		if r != vSame {
			if r == vDiff {
				c.why = ""
			}
			return c.undec("%s and %s", short(x), short(y))
		}
		for i := 2; i < 5; i++ {
			if r = c.cmp(b.subst(x.args[i], mx), b.subst(y.args[i], my)); r != vSame {
				return r
			}
		}
		return r
	case "fold":
		return c.cmpFold(x, y)
	}
	return c.undec("%s", x.op)
}

func foldParts(b *TB, t *Term) (lv int, inits, steps, accs []*Term) {
	lv, _ = strconv.Atoi(t.s)
	nv := (len(t.args) - 1) / 2
	inits, steps = t.args[1:1+nv], t.args[1+nv:]
	for i := range inits {
		accs = append(accs, b.acc(lv, i, inits[i]))
	}
	return
}

// cmpFold: the first accumulators of two loops. Same: some pairing of the accumulators keeps them equal in every step.
// Different: they part after a few steps from the initial values.
func (c *cmpr) cmpFold(x, y *Term) verdict {
	b := c.b
	lx, ix, sx, ax := foldParts(b, x)
	ly, iy, sy, ay := foldParts(b, y)
	nv := c.cmp(x.args[0], y.args[0])
	if (nv == vSame || nv == vDiff) && len(ix) == len(iy) && len(ix) <= 6 {
		k := b.freshSym("κc", types.Typ[types.Int])
		perm := make([]int, len(ix))
		used := make([]bool, len(ix))
		tries := 0
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(ix) {
				tries++
				if tries > 24 {
					return false
				}
				mx, my := map[*Term]*Term{b.bv(lx): k}, map[*Term]*Term{b.bv(ly): k}
				for i := range ix {
					f := b.freshSym("μc", nil)
					f = b.mk(Term{op: "sym", kind: ax[i].kind, s: f.s})
					mx[ax[i]], my[ay[perm[i]]] = f, f
				}
				for i := range ix {
					if c.cmpQuiet(b.subst(sx[i], mx), b.subst(sy[perm[i]], my)) != vSame {
						return false
					}
				}
				return true
			}
			for j := range iy {
				if used[j] || i == 0 && j != 0 || ax[i].kind != ay[j].kind || c.cmpQuiet(ix[i], iy[j]) != vSame {
					continue
				}
				used[j], perm[i] = true, j
				if rec(i + 1) {
					return true
				}
				used[j] = false
			}
			return false
		}
		w := c.why
		if rec(0) {
			c.why = w
			if nv == vSame || sx[0] != ax[0] && leavesMark(sx[0]) {
				return nv // the same steps, more or fewer times
			}
		}
	}
	if nv == vDiff {
		c.why = ""
		return c.undec("%s and %s", short(x), short(y))
	}
	// unroll
	step := func(cur, steps, accs []*Term, lv, k int) []*Term {
		m := map[*Term]*Term{b.bv(lv): b.int(int64(k))}
		for i := range accs {
			m[accs[i]] = cur[i]
		}
		var out []*Term
		for _, s := range steps {
			out = append(out, b.subst(s, m))
		}
		return out
	}
	cx, cy := ix, iy
	for k := 0; k <= 3; k++ {
		if k > 0 {
			cx, cy = step(cx, sx, ax, lx, k-1), step(cy, sy, ay, ly, k-1)
		}
		if cx[0].size > 20000 || cy[0].size > 20000 {
			break
		}
		// exactly k steps: what is held in between is nobody's result
		eqk := b.eq(x.args[0], b.int(int64(k)))
		if eqk.isFalse() {
			continue
		}
		na := len(c.assume)
		c.assume = append(c.assume, b.sub(x.args[0], b.int(int64(k))), b.sub(b.int(int64(k)), x.args[0]))
		u := c.unk
		var v verdict
		if known, ok := c.decided(eqk); ok && !known {
			c.assume = c.assume[:na]
			continue
		}
		if eqk.isTrue() {
			v = c.cmp(cx[0], cy[0])
		} else {
			nt := len(c.trail)
			c.trail = append(c.trail, lit{eqk, true, true, true})
			r := c.with(eqk, true, cx[0], cy[0])
			v = c.cmp(r[0], r[1])
			c.trail = c.trail[:nt]
		}
		c.assume = c.assume[:na]
		if v == vDiff {
			return v
		}
		c.unk = u
		if v == vUnk {
			break
		}
	}
	return c.undec("%s and %s", short(x), short(y))
}

// leavesMark: a step whose every run leaves something behind.
func leavesMark(t *Term) bool {
	if t.op == "ite" {
		return false
	}
	if t.op == "cat" {
		for _, a := range t.args {
			if a.op == "unit" || a.op == "str" {
				return true
			}
		}
	}
	return t.op == "app" && (t.s == "rput" || t.s == "mput" || strings.HasPrefix(t.s, "fx:"))
}

// cmpNum: polynomials.
func (c *cmpr) cmpNum(x, y *Term) verdict {
	b := c.b
	if x == y {
		return vSame
	}
	d := b.sub(x, y)
	if d.op == "ite" {
		return c.splitNum(d)
	}
	if d.op == "num" {
		if d.r.Sign() == 0 {
			return vSame
		}
		return c.diff("%s instead of %s", short(x), short(y))
	}
	if len(c.trail)+len(c.assume) > 0 && isIntTerm(b, d) && !c.linRows([]*Term{b.sub(d, b.int(1))}) && !c.linRows([]*Term{b.sub(b.neg(d), b.int(1))}) {
		return vSame
	}
	if c.input(d) {
		return c.diff("%s instead of %s", short(x), short(y))
	}
	// pair off atoms with opposite coefficients
	ks, cs := b.polyParts(d)
	caps := 0
	for _, k := range ks {
		if k.isApp("cap") && k.args[0].isApp("len") {
			caps++
		}
	}
	if caps == 1 { // how much room there is for a list is not determined by what is in it
		return c.diff("%s instead of %s", short(x), short(y))
	}
	var pk, nk []*Term
	var pc, nc []*big.Rat
	rest := 0
	for i, k := range ks {
		if k.op == "num" || c.input(k) {
			rest++
			continue
		}
		if cs[i].Sign() > 0 {
			pk = append(pk, k)
			pc = append(pc, cs[i])
		} else {
			nk = append(nk, k)
			nc = append(nc, new(big.Rat).Neg(cs[i]))
		}
	}
	if len(pk) == 1 && len(nk) == 1 && pc[0].Cmp(nc[0]) == 0 {
		if pk[0].op == "mul" || nk[0].op == "mul" {
			v := c.cmpMul(pk[0], nk[0])
			if v == vDiff && rest > 0 || v == vUnk {
				c.why = ""
				return c.undec("%s and %s", short(x), short(y))
			}
			return v
		}
		v := c.cmpApp(pk[0], nk[0])
		switch {
		case rest == 0:
			return v
		case v == vSame:
			return c.diff("%s instead of %s", short(x), short(y))
		}
		c.why = ""
		return c.undec("%s and %s", short(x), short(y))
	}
	// one structured quantity more, or a different multiple of it
	if len(pk)+len(nk) == 1 {
		k := append(pk, nk...)[0]
		if k.op == "app" && (valueFns[k.s] || k.s == "len") || k.op == "sum" || k.op == "first" && rest == 0 || k.op == "mul" && rest == 0 {
			return c.diff("%s instead of %s", short(x), short(y))
		}
	}
	return c.undec("%s and %s", short(x), short(y))
}

func (c *cmpr) splitNum(d *Term) verdict {
	return c.split(topAtom(d), d, c.b.int(0), c.cmpNum)
}

func (c *cmpr) cmpMul(x, y *Term) verdict {
	fx, fy := []*Term{x}, []*Term{y}
	if x.op == "mul" {
		fx = append([]*Term{}, x.args...)
	}
	if y.op == "mul" {
		fy = append([]*Term{}, y.args...)
	}
	for i := 0; i < len(fx); i++ {
		for j := range fy {
			if fx[i] == fy[j] {
				fx = append(fx[:i], fx[i+1:]...)
				fy = append(fy[:j], fy[j+1:]...)
				i--
				break
			}
		}
	}
	if len(fx) == 1 && len(fy) == 1 {
		return c.cmpNum(fx[0], fy[0])
	}
	ok := true
	for _, k := range append(append([]*Term{}, fx...), fy...) {
		if !c.input(k) && !(k.op == "app" && (k.s == "inv") && c.input(k.args[0])) {
			ok = false
		}
	}
	if ok {
		return c.diff("%s instead of %s", short(x), short(y))
	}
	return c.undec("%s and %s", short(x), short(y))
}

// ---- sequences

func isWS(b byte) bool { return b == ' ' || b == '\n' || b == '\r' || b == '\t' || b == 0 || b == '\f' }

func isDelim(b byte) bool { return strings.IndexByte("<>[]/{}", b) >= 0 }

// squeeze: one blank for white space, none next to delimiters.
func squeeze(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if isWS(ch) {
			if len(out) > 0 && (out[len(out)-1] == ' ' || isDelim(out[len(out)-1])) {
				continue
			}
			out = append(out, ' ')
			continue
		}
		if isDelim(ch) && len(out) > 0 && out[len(out)-1] == ' ' {
			out = out[:len(out)-1]
		}
		out = append(out, ch)
	}
	return string(out)
}

func (c *cmpr) segs(t *Term) []*Term { return c.segs1(t, true) }

// segsIn: segments of a part (white space at its ends stays)
func (c *cmpr) segsIn(t *Term) []*Term { return c.segs1(t, false) }

func (c *cmpr) segs1(t *Term, ends bool) []*Term {
	s := append([]*Term{}, segsOf(t)...)
	if !c.ws {
		return s
	}
	var out []*Term
	for i, g := range s {
		if g.op == "str" {
			q := squeeze(g.s)
			if ends && i == len(s)-1 {
				q = strings.TrimRight(q, " ")
			}
			if ends && i == 0 {
				q = strings.TrimLeft(q, " ")
			}
			if q == "" {
				continue
			}
			g = c.b.str(q)
		}
		out = append(out, g)
	}
	return out
}

func (c *cmpr) cmpSeq(x, y *Term) verdict {
	if x == y {
		return vSame
	}
	v := c.cmpSegs(c.segs(x), c.segs(y))
	if v == vUnk && !c.ws && c.nest < 3 {
		// texts of different lengths
		u := c.unk
		if nx, ny := c.b.seqLen(x), c.b.seqLen(y); c.freeLen(nx) && c.freeLen(ny) && c.cmpNum(nx, ny) == vDiff {
			return vDiff
		}
		c.unk = u
	}
	return v
}

func commonPrefix(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func (c *cmpr) cmpSegs(xs, ys []*Term) verdict {
	b := c.b
	c.budget--
	if c.budget < 0 {
		return c.undec("too large")
	}
	c.dx, c.dy = xs, ys
	if base, i, v := c.updated(ys); base != nil && base == b.cat(xs...) {
		return c.cmp(b.idx(base, i, v.typ), v)
	}
	if base, i, v := c.updated(xs); base != nil && base == b.cat(ys...) {
		return c.cmp(v, b.idx(base, i, v.typ))
	}
	if rx, ry := c.updRoot(xs), c.updRoot(ys); rx != nil && rx == ry && len(xs) == 3 && len(ys) == 3 && xs[0].args[0] != ys[0].args[0] {
		// elements of one list set in different orders
		if k := xs[1].args[0].typ; k != nil {
			i := b.freshSym("κu", types.Typ[types.Int])
			return c.cmp(b.idx(b.cat(xs...), i, k), b.idx(b.cat(ys...), i, k))
		}
	}
	for len(xs) > 0 && len(ys) > 0 {
		x, y := xs[0], ys[0]
		if x == y {
			xs, ys = xs[1:], ys[1:]
			continue
		}
		if x.op == "str" && y.op == "str" {
			n := commonPrefix(x.s, y.s)
			if n < len(x.s) && n < len(y.s) {
				if n == 0 && c.ws && (x.s[0] == ' ' || y.s[0] == ' ') && strings.TrimLeft(x.s, " ") == strings.TrimLeft(y.s, " ") {
					// white space before, where the other has a delimiter
				}
				return c.diff("%q instead of %q", clip(x.s[n:]), clip(y.s[n:]))
			}
			xs, ys = xs[1:], ys[1:]
			if n < len(x.s) {
				xs = append([]*Term{b.str(x.s[n:])}, xs...)
			}
			if n < len(y.s) {
				ys = append([]*Term{b.str(y.s[n:])}, ys...)
			}
			continue
		}
		break
	}
	if nx, ny := c.splitSub(xs, ys); nx != nil {
		return c.cmpSegs(nx, ny)
	}
	// common end
	for len(xs) > 0 && len(ys) > 0 && xs[len(xs)-1] == ys[len(ys)-1] {
		xs, ys = xs[:len(xs)-1], ys[:len(ys)-1]
	}
	if len(xs) == 0 && len(ys) == 0 {
		return vSame
	}
	for _, l := range [][]*Term{xs, ys} {
		for _, s := range l {
			if s.op == "ite" {
				return c.split(s.args[0], b.cat(xs...), b.cat(ys...), func(x, y *Term) verdict { return c.cmpSegs(c.segsIn(x), c.segsIn(y)) })
			}
		}
	}
	if len(xs) == 0 || len(ys) == 0 {
		r := append(append([]*Term{}, xs...), ys...)
		for _, s := range r {
			if c.nonEmptyable(s) {
				what := "extra"
				if len(xs) == 0 {
					what = "missing"
				}
				if os.Getenv("VERIF_DEBUG") == "3" {
					fmt.Println("EXTRA", b.cat(r...), "OF", c.dx, "AND", c.dy, c.facts())
				}
				return c.diff("%s %s", what, short(b.cat(r...)))
			}
		}
		return c.undec("%s", short(b.cat(r...)))
	}
	x, y := xs[0], ys[0]
	rest := func() verdict { return c.cmpSegs(xs[1:], ys[1:]) }
	// the first character of a literal against a single computed one
	if x.op == "str" && y.op == "unit" && y.args[0].kind == 'n' {
		if v := c.cmp(b.int(int64(x.s[0])), y.args[0]); v != vUnk {
			return join(v, c.cmpSegs(append(segsOf(b.str(x.s[1:])), xs[1:]...), ys[1:]))
		}
	}
	if y.op == "str" && x.op == "unit" && x.args[0].kind == 'n' {
		if v := c.cmp(x.args[0], b.int(int64(y.s[0]))); v != vUnk {
			return join(v, c.cmpSegs(xs[1:], append(segsOf(b.str(y.s[1:])), ys[1:]...)))
		}
	}
	if len(xs) == 1 && len(ys) == 1 {
		if x.op == "str" || y.op == "str" {
			return c.litVs(x, y, true)
		}
		return c.cmpApp(x, y)
	}
	// a literal against something formatted
	if x.op == "str" || y.op == "str" {
		v := c.litVs(x, y, x.op == "str" && delimStr(xs) || y.op == "str" && delimStr(ys))
		if v == vDiff {
			return v
		}
		return c.unlikeSegs(xs, ys)
	}
	if isFmt(x) && isFmt(y) {
		if x.s != y.s {
			if delim(xs) && delim(ys) {
				return c.diff("%s instead of %s", short(x), short(y))
			}
			return c.undec("%s and %s", short(x), short(y))
		}
		v := c.cmpArgs(x.args, y.args)
		if v == vDiff && delim(xs) && delim(ys) {
			return v
		}
		c.why = ""
		if v == vSame {
			return rest()
		}
		if v == vDiff && c.cmpQuiet(b.cat(xs[1:]...), b.cat(ys[1:]...)) == vSame {
			return c.cmpArgs(x.args, y.args)
		}
		r := rest()
		if r == vDiff && v == vUnk {
			return r
		}
		return c.unlikeSegs(xs, ys)
	}
	// elements one by one
	if x.op == "unit" && y.op == "unit" {
		v := c.cmp(x.args[0], y.args[0])
		if v == vDiff {
			return v
		}
		return join(v, rest())
	}
	// same length on both sides: position by position
	lx, ly := b.seqLen(x), b.seqLen(y)
	if lx == ly {
		v := c.cmpApp(x, y)
		if v == vDiff {
			return v
		}
		r := rest()
		return join(v, r)
	}
	// the first parts differ in length; if the rest is the same, they decide
	save := c.why
	if v := c.cmpQuiet(b.cat(xs[1:]...), b.cat(ys[1:]...)); v == vSame {
		c.why = save
		return c.cmpApp(x, y)
	}
	// compare from the end
	x, y = xs[len(xs)-1], ys[len(ys)-1]
	if x.op == "str" && y.op == "str" {
		n := 0
		for n < len(x.s) && n < len(y.s) && x.s[len(x.s)-1-n] == y.s[len(y.s)-1-n] {
			n++
		}
		if n < len(x.s) && n < len(y.s) {
			return c.diff("…%q instead of …%q", clipL(x.s[:len(x.s)-n]), clipL(y.s[:len(y.s)-n]))
		}
		if n > 0 {
			nx := append(append([]*Term{}, xs[:len(xs)-1]...), segsOf(b.str(x.s[:len(x.s)-n]))...)
			ny := append(append([]*Term{}, ys[:len(ys)-1]...), segsOf(b.str(y.s[:len(y.s)-n]))...)
			return c.cmpSegs(nx, ny)
		}
	}
	if x.op == "unit" && y.op == "unit" {
		v := c.cmp(x.args[0], y.args[0])
		if v == vDiff {
			return v
		}
		return join(v, c.cmpSegs(xs[:len(xs)-1], ys[:len(ys)-1]))
	}
	// a part inserted or dropped: the remaining parts agree
	if v := c.inserted(xs, ys); v == vDiff {
		return v
	}
	return c.unlikeSegs(xs, ys)
}

// onlyCall: a list of one call's result and constants.
func onlyCall(xs []*Term) (call *Term) {
	for _, x := range xs {
		if x.op == "str" {
			continue
		}
		if !x.isApp("elems") || x.args[0].op != "app" || !strings.HasPrefix(x.args[0].s, "call:") || call != nil {
			return nil
		}
		call = x.args[0]
	}
	return call
}

// unlikeSegs: not known to be the same, nor known to differ; some input may tell them apart.
func (c *cmpr) unlikeSegs(xs, ys []*Term) verdict {
	x, y := c.b.cat(xs...), c.b.cat(ys...)
	if p, q := onlyCall(xs), onlyCall(ys); p != nil && q != nil && p != q && p.s == q.s && len(p.args) == len(q.args) {
		// results of one function for different constants
		for i := range p.args {
			if p.args[i] != q.args[i] && (p.args[i].op != q.args[i].op || p.args[i].op != "num" && p.args[i].op != "str") {
				p = nil
				break
			}
		}
		if p != nil {
			return c.diff("%s instead of %s", short(x), short(y))
		}
	}
	if c.sampled(x, y) {
		return vDiff
	}
	return c.undec("%s and %s", short(x), short(y))
}

// freeLen: a number made of nothing but constants, numbers of the input, and lengths of texts and lists of the input.
func (c *cmpr) freeLen(t *Term) bool {
	switch {
	case t.op == "num":
		return true
	case t.isApp("len"):
		return c.input(t.args[0]) || fxRoot1(t.args[0])
	case t.kind == 'n' && (t.op == "app" || t.op == "sym"):
		return c.input(t) || fxRoot1(t)
	case t.op == "poly":
		for _, a := range t.args {
			if !c.freeLen(a) {
				return false
			}
		}
		return true
	}
	return false
}

// splitSub: two parts of one list from the same place on, of which one is a few elements longer: those by themselves.
func (c *cmpr) splitSub(xs, ys []*Term) ([]*Term, []*Term) {
	if len(xs) == 0 || len(ys) == 0 || xs[0].op != "sub" || ys[0].op != "sub" {
		return nil, nil
	}
	b := c.b
	x, y := xs[0], ys[0]
	if x.args[0] != y.args[0] || x.args[1] != y.args[1] {
		return nil, nil
	}
	d, ok := b.sub(y.args[2], x.args[2]).intVal()
	if !ok || d == 0 || d > 3 || d < -3 {
		return nil, nil
	}
	et := func(l []*Term) types.Type {
		for _, s := range l {
			if s.op == "unit" {
				return s.args[0].typ
			}
		}
		return nil
	}
	cut := func(long []*Term, end *Term, n int64, t types.Type) []*Term {
		out := []*Term{b.slice(long[0].args[0], long[0].args[1], end)}
		for i := int64(0); i < n; i++ {
			out = append(out, b.unit(b.idx(long[0].args[0], b.add(end, b.int(i)), t)))
		}
		return append(out, long[1:]...)
	}
	if d > 0 {
		t := et(xs)
		if t == nil || len(xs) < 2 || xs[1].op != "unit" {
			return nil, nil
		}
		return xs, cut(ys, x.args[2], d, t)
	}
	t := et(ys)
	if t == nil || len(ys) < 2 || ys[1].op != "unit" {
		return nil, nil
	}
	return cut(xs, y.args[2], -d, t), ys
}

// updated: a list that is another one with one element set.
func (c *cmpr) updated(ss []*Term) (base, i, v *Term) {
	b := c.b
	switch {
	case len(ss) == 3 && ss[0].op == "sub" && ss[1].op == "unit" && ss[2].op == "sub" && ss[0].args[0] == ss[2].args[0]:
		base, i = ss[0].args[0], ss[0].args[2]
		if n := ss[0].args[1]; n.op != "num" || n.r.Sign() != 0 {
			return nil, nil, nil
		}
		if b.sub(ss[2].args[1], i) != b.int(1) || ss[2].args[2] != b.seqLen(base) {
			return nil, nil, nil
		}
		return base, i, ss[1].args[0]
	case len(ss) == 2 && ss[0].op == "unit" && ss[1].op == "sub":
		// the first element
		base = ss[1].args[0]
		if ss[1].args[1] != b.int(1) || ss[1].args[2] != b.seqLen(base) {
			return nil, nil, nil
		}
		return base, b.int(0), ss[0].args[0]
	}
	return nil, nil, nil
}

func (c *cmpr) updRoot(ss []*Term) *Term {
	var r *Term
	for {
		base, _, _ := c.updated(ss)
		if base == nil {
			return r
		}
		r = base
		ss = segsOf(base)
	}
}

// openUpd: an element (or part of one) of a list with one element set, by cases.
func (c *cmpr) openUpd(t *Term) *Term {
	if t.op != "app" || len(t.args) == 0 {
		return nil
	}
	if strings.HasPrefix(t.s, ".") || t.s == "elems" {
		u := c.openUpd(t.args[0])
		if u == nil {
			return nil
		}
		return c.b.mapIte(u, func(l *Term) *Term { return c.b.subst(t, map[*Term]*Term{t.args[0]: l}) })
	}
	if t.s != "idx" {
		return nil
	}
	base, i, v := c.updated(segsOf(t.args[0]))
	if base == nil {
		return nil
	}
	return c.b.ite(c.b.eq(i, t.args[1]), v, c.b.idx(base, t.args[1], t.typ))
}

// inserted: one list is the other with something added that can be non-empty.
func (c *cmpr) inserted(xs, ys []*Term) verdict {
	long, sh := xs, ys
	what := "extra"
	if len(ys) > len(xs) {
		long, sh = ys, xs
		what = "missing"
	}
	if len(long) == len(sh) {
		return vUnk
	}
	i := 0
	var left []*Term
	for _, s := range long {
		if i < len(sh) && sh[i] == s {
			i++
			continue
		}
		left = append(left, s)
	}
	if i < len(sh) {
		return vUnk
	}
	for _, s := range left {
		if c.nonEmptyable(s) {
			return c.diff("%s %s", what, short(c.b.cat(left...)))
		}
	}
	return vUnk
}

func clip(s string) string {
	if len(s) > 40 {
		return s[:40] + "…"
	}
	return s
}
func clipL(s string) string {
	if len(s) > 40 {
		return s[len(s)-40:]
	}
	return s
}

// delim: a formatted number that is followed by something that is not part of a number
func delim(l []*Term) bool {
	if len(l) == 1 {
		return true
	}
	n := l[1]
	return n.op == "str" && n.s != "" && !strings.ContainsRune("0123456789.-+eE", rune(n.s[0]))
}

// delimStr: a literal that is the whole rest, or holds or is followed by something that is not part of a number
func delimStr(l []*Term) bool {
	if len(l) == 1 {
		return true
	}
	for i := range l[0].s {
		if strings.IndexByte("0123456789.-+eE", l[0].s[i]) < 0 {
			return true
		}
	}
	return delim(l)
}

// litVs: a literal and something else; whole: what makes up a number does not go on behind the literal.
func (c *cmpr) litVs(x, y *Term, whole bool) verdict {
	s, o := x, y
	if y.op == "str" {
		s, o = y, x
	}
	if s.op != "str" {
		return vUnk
	}
	switch {
	case isFmt(o):
		v := o.s[len(o.s)-1]
		if strings.IndexByte("dfge", v) >= 0 && s.s != "" && strings.IndexByte("0123456789-+", s.s[0]) < 0 && !(o.s[4:] != "%"+string(v) && s.s[0] == ' ') {
			return c.diff("%s instead of %s", short(x), short(y))
		}
		if whole && c.input(o.args[0]) && strings.IndexByte("dfge", v) >= 0 {
			return c.diff("%s instead of %s", short(x), short(y))
		}
	case o.op == "unit" && c.input(o.args[0]), c.place(o):
		return c.diff("%s instead of %s", short(x), short(y))
	case o.op == "app" && valueFns[o.s] && !strings.HasPrefix(o.s, "m"):
		return c.diff("%s instead of %s", short(x), short(y))
	case o.op == "sub":
		return c.diff("%s instead of %s", short(x), short(y))
	}
	return c.undec("%s and %s", short(x), short(y))
}

func (c *cmpr) nonEmptyable(s *Term) bool {
	switch s.op {
	case "str":
		return s.s != ""
	case "unit":
		return true
	case "star":
		return c.nonEmptyable(s.args[1])
	case "sub", "sym":
		return true
	case "ite":
		return false
	case "app":
		return isFmt(s) || valueFns[s.s] || c.input(s) || strings.HasPrefix(s.s, "call:")
	}
	return false
}

// ---- can the assumptions of the path hold together?

func (c *cmpr) feasible() bool {
	var xs, ys []lit
	for _, l := range c.trail {
		switch {
		case l.inX && !l.inY:
			xs = append(xs, l)
		case l.inY && !l.inX:
			ys = append(ys, l)
		}
	}
	for _, p := range xs {
		for _, q := range ys {
			if c.entangled(p.a, q.a) && !c.apart(p, q) && !c.witnessed(p, q) && !c.witnessedNum(p, q) {
				c.undec("conditions %s and %s", short(p.a), short(q.a))
				return false
			}
		}
	}
	return true
}

// opaqueFn: the uninterpreted function whose outcome a condition is.
func opaqueFn(t *Term) string {
	if t.op != "app" || !strings.HasPrefix(t.s, "call:") {
		return ""
	}
	f, _, _ := strings.Cut(t.s, " fails with ")
	f, _, _ = strings.Cut(f, "#")
	return f
}

// apart: two conditions that say nothing about each other although they are about the same data.
func (c *cmpr) apart(p, q lit) bool {
	if x, y := map[*Term]bool{}, map[*Term]bool{}; c.freeParts(p.a, x) && c.freeParts(q.a, y) {
		common := false
		for t := range x {
			common = common || y[t] || t.kind == 'o' && contains(q.a, t)
		}
		for t := range y {
			common = common || t.kind == 'o' && contains(p.a, t)
		}
		for t := range x {
			for u := range y {
				if t.isApp("idx") && u.isApp("idx") && t.args[0] == u.args[0] {
					if d, ok := c.b.sub(t.args[1], u.args[1]).intVal(); !ok || d == 0 {
						common = true
					}
				}
			}
		}
		if !common {
			return true
		}
	}
	for _, s := range [][2]lit{{p, q}, {q, p}} {
		a, o := s[0], s[1]
		// an entry and the map itself
		if a.a.isApp("mhas") && o.a.isApp("isnil") && a.a.args[0].isApp("mapof") && a.a.args[0].args[0] == o.a.args[0] && c.input(o.a) && !(a.v && o.v) {
			return true
		}
		// an entry of a map of the input and something that is not about the map
		if a.a.isApp("mhas") && c.input(a.a.args[0]) && !contains(o.a, a.a.args[0]) && !contains(o.a, mapRef(a.a.args[0])) {
			return true
		}
		// the outcome of an uninterpreted call and something else than an outcome of it
		if f := opaqueFn(a.a); f != "" && f != opaqueFn(o.a) && !hasCall(o.a, f) {
			return true
		}
	}
	return false
}

// freeParts: the numbers and texts of the input, or left by uninterpreted calls, that a condition compares; ok if it
// does nothing else.
func (c *cmpr) freeParts(t *Term, out map[*Term]bool) bool {
	switch {
	case t.op == "num" || t.op == "str" || t.op == "bool":
		return true
	case (t.kind == 'n' || t.kind == 's') && (t.op == "app" || t.op == "sym") && (c.input(t) || fxRoot1(t)):
		out[t] = true
		return true
	case t.isApp("idx") && t.kind == 'n' && c.sampleLeaf(t):
		out[t] = true
		return true
	case t.isApp("isnil") && t.args[0].kind == 'o' && c.input(t.args[0]):
		out[t.args[0]] = true
		return true
	case t.op == "poly" || t.isApp("ge0") || t.isApp("eq0") || t.isApp("eq"):
		for _, a := range t.args {
			if !c.freeParts(a, out) {
				return false
			}
		}
		return true
	}
	return false
}

// fxRoot1: a field or element of what an uninterpreted call left behind.
func fxRoot1(t *Term) bool {
	for t.op == "app" && len(t.args) > 0 {
		switch {
		case strings.HasPrefix(t.s, "fx:"):
			return true
		case strings.HasPrefix(t.s, "."), t.s == "elems", t.s == "mapof", t.s == "bufseq":
			t = t.args[0]
		case t.s == "idx" && t.args[1].op == "num":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

func mapRef(m *Term) *Term {
	if m.isApp("mapof") {
		return m.args[0]
	}
	return m
}

// callRoot: the uninterpreted call (of a function that does some work) this value is a part of.
func (c *cmpr) callRoot(t *Term) string {
	for t.op == "app" {
		if strings.HasPrefix(t.s, "call:") {
			f, _, _ := strings.Cut(t.s, "#")
			for g := range c.e.opts.opaque {
				if "call:"+g.String() == f && works(g) {
					return f
				}
			}
			return ""
		}
		if !(strings.HasPrefix(t.s, ".") || t.s == "elems" || t.s == "mapof" || t.s == "idx" || t.s == "*") || len(t.args) == 0 {
			return ""
		}
		t = t.args[0]
	}
	return ""
}

// works: more than handing out or computing a value from its inputs.
func works(f *ssa.Function) bool {
	if len(f.Blocks) > 1 {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					return true
				}
			}
		}
	}
	return false
}

func hasCall(t *Term, f string) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "app" && (strings.HasPrefix(t.s, f) || strings.HasPrefix(t.s, "fx:"+f)) {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// sampleLeaves: the numbers of the input in these terms; nil if there are none, too many, or the terms are large.
func (c *cmpr) sampleLeaves(ts ...*Term) (leaves []*Term, consts []*big.Rat) {
	seen := map[*Term]bool{}
	n := 0
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] || n > 120 {
			return
		}
		seen[t] = true
		n++
		if t.op == "num" {
			consts = append(consts, t.r)
			return
		}
		if t.kind == 'n' && c.sampleLeaf(t) {
			leaves = append(leaves, t)
			return
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	if n > 120 || len(leaves) > 10 {
		return nil, nil
	}
	// different elements of one list
	for i, t := range leaves {
		for _, u := range leaves[i+1:] {
			if t.isApp("idx") && u.isApp("idx") && t.args[0] == u.args[0] {
				if d, ok := c.b.sub(t.args[1], u.args[1]).intVal(); !ok || d == 0 {
					return nil, nil
				}
			}
		}
	}
	return leaves, consts
}

// sampleLeaf: a parameter, or a field or element of what one refers to.
func (c *cmpr) sampleLeaf(t *Term) bool {
	if t.isApp("idx") && t.args[0].isApp("rdrseq") && c.input(t.args[0].args[0]) && !madeUp(t.args[1]) {
		return true // a byte of a file
	}
	for t.op == "app" && len(t.args) > 0 {
		switch {
		case strings.HasPrefix(t.s, "."), t.s == "*", t.s == "elems", t.s == "bufseq":
		case t.s == "idx" && t.args[1].op == "num":
		default:
			return false
		}
		t = t.args[0]
	}
	return t.op == "sym" && len(t.s) > 1 && t.s[0] == 'p' && t.s[1] >= '0' && t.s[1] <= '9' && !strings.Contains(t.s, "'")
}

// madeUp: a made-up number is part of the term.
func madeUp(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "sym" && strings.Contains(t.s, "'") {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// samples: values a number of the input can have.
func samples(leaf *Term, consts []*big.Rat) []*big.Rat {
	lo, hi := int64(-1<<31), int64(1<<31)
	if leaf.typ != nil {
		if bt, ok := leaf.typ.Underlying().(*types.Basic); ok {
			switch bt.Kind() {
			case types.Uint8:
				lo, hi = 0, 255
			case types.Int8:
				lo, hi = -128, 127
			case types.Uint16:
				lo, hi = 0, 65535
			case types.Int16:
				lo, hi = -32768, 32767
			case types.Uint32, types.Uint64, types.Uint:
				lo = 0
			case types.Int32:
				hi = 1<<31 - 1
			case types.Int, types.Int64:
				if leaf.op == "sym" {
					lo = 0 // a count, a position, or a number of an object
				}
			}
		}
	}
	var out []*big.Rat
	done := map[int64]bool{}
	add := func(v int64) {
		if v >= lo && v <= hi && !done[v] {
			done[v] = true
			out = append(out, new(big.Rat).SetInt64(v))
		}
	}
	for _, v := range []int64{0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 36, 40, 48, 63, 64, 100, 127, 128, 192, 255, 256, 257, 1000, 4095, 32768, 65535, 65536, 70000, 1 << 24, 1<<24 + 257, -1, -2, -4, -16, -100} {
		add(v)
	}
	for i, r := range consts {
		if r.IsInt() && r.Num().IsInt64() && i < 20 {
			v := r.Num().Int64()
			for _, d := range []int64{v - 1, v, v + 1, -v} {
				add(d)
			}
		}
	}
	return out
}

// holds: with these values, all that the path says about them is as the path has it.
func (c *cmpr) holds(m map[*Term]*Term) bool {
	for _, l := range c.trail {
		about := false
		for leaf := range m {
			about = about || contains(l.a, leaf)
		}
		if !about {
			continue
		}
		if t := c.b.subst(l.a, m); t.op != "bool" || t.isTrue() != l.v {
			return false
		}
	}
	return c.asChosen(m) && (c.pc == nil || !c.b.subst(c.pc, m).isFalse())
}

// asChosen: what was chosen for a small instance is what these values give.
func (c *cmpr) asChosen(m map[*Term]*Term) bool {
	for _, k := range c.insts {
		for leaf := range m {
			if contains(k[0], leaf) {
				if c.b.subst(k[0], m) != c.b.subst(k[1], m) {
					return false
				}
				break
			}
		}
	}
	return true
}

// sampled: for some numbers as input, both are constants and not the same.
func (c *cmpr) sampled(x, y *Term) bool {
	if x.kind != y.kind || x.kind != 'n' && x.kind != 'b' && (x.kind != 's' || c.ws) {
		return false
	}
	leaves, consts := c.sampleLeaves(x, y)
	if len(leaves) == 0 {
		return false
	}
	isConst := func(t *Term) bool { return t.op == "num" || t.op == "str" || t.op == "bool" }
	u := c.unk
	return c.tries(leaves, consts, func(m map[*Term]*Term) bool {
		p, q := c.b.subst(x, m), c.b.subst(y, m)
		if p == q || !(isConst(p) && isConst(q)) && !c.constDiff(p, q) || !c.holds(m) {
			return false
		}
		if c.diff("%s instead of %s (for example, with %s: %s instead of %s)", short(x), short(y), sampleText(leaves, m), short(p), short(q)) == vDiff {
			c.unk = u
			return true
		}
		return false
	})
}

// constDiff: two texts that begin or end alike, and then have different characters.
func (c *cmpr) constDiff(p, q *Term) bool {
	if p.kind != 's' || q.kind != 's' {
		return false
	}
	xs, ys := segsOf(p), segsOf(q)
	for len(xs) > 0 && len(ys) > 0 && xs[0] == ys[0] {
		xs, ys = xs[1:], ys[1:]
	}
	if len(xs) > 0 && len(ys) > 0 && xs[0].op == "str" && ys[0].op == "str" {
		n := commonPrefix(xs[0].s, ys[0].s)
		if n < len(xs[0].s) && n < len(ys[0].s) {
			return true
		}
	}
	return false
}

func sampleText(leaves []*Term, m map[*Term]*Term) string {
	var ss []string
	for _, l := range leaves {
		ss = append(ss, short(l)+" = "+short(m[l]))
	}
	return strings.Join(ss, ", ")
}

func (c *cmpr) tries(leaves []*Term, consts []*big.Rat, f func(map[*Term]*Term) bool) bool {
	if len(leaves) > 2 {
		for j := 0; j < 12; j++ {
			m := map[*Term]*Term{}
			for i, l := range leaves {
				vs := samples(l, consts)
				if j < 4 {
					vs = samples(l, nil)[:11]
				}
				m[l] = c.b.num(vs[(i*(2+j)+j*5+3)%len(vs)])
			}
			if f(m) {
				return true
			}
		}
		for k := range leaves {
			for _, v := range samples(leaves[k], nil) {
				m := map[*Term]*Term{}
				for i, l := range leaves {
					m[l] = c.b.int(int64(3*i + 1))
				}
				m[leaves[k]] = c.b.num(v)
				if f(m) {
					return true
				}
			}
		}
		return false
	}
	first := samples(leaves[0], consts)
	for _, v := range first {
		m := map[*Term]*Term{leaves[0]: c.b.num(v)}
		if len(leaves) == 1 {
			if f(m) {
				return true
			}
			continue
		}
		for i, w := range samples(leaves[1], consts) {
			if i > 16 {
				break
			}
			m[leaves[1]] = c.b.num(w)
			if f(m) {
				return true
			}
		}
	}
	return false
}

// witnessedNum: there are numbers for which both conditions are as the path has them.
func (c *cmpr) witnessedNum(p, q lit) bool {
	leaves, consts := c.sampleLeaves(p.a, q.a)
	if len(leaves) == 0 {
		return false
	}
	return c.tries(leaves, consts, c.holds)
}

// witnessed: both conditions are about one text of the input, and there is a text for which they, and all else the
// path says about it, are as the path has them.
func (c *cmpr) witnessed(p, q lit) bool {
	b := c.b
	var leaves []*Term
	consts := map[string]bool{"": true, "x": true}
	for _, t := range []*Term{p.a, q.a} {
		seen := map[*Term]bool{}
		var w func(*Term)
		w = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "str" {
				consts[t.s] = true
				return
			}
			if t.kind == 's' && c.input(t) {
				if !hasTerm(leaves, t) {
					leaves = append(leaves, t)
				}
				return
			}
			for _, a := range t.args {
				w(a)
			}
		}
		w(t)
	}
	if len(leaves) != 1 || len(consts) > 6 {
		return false
	}
	leaf := leaves[0]
	var texts []string
	for a := range consts {
		for d := range consts {
			texts = append(texts, a+d, "x"+a+d, a+d+"x", a+"x"+d, "x"+a+"x"+d+"x")
		}
	}
	sort.Strings(texts)
next:
	for _, s := range texts {
		m := map[*Term]*Term{leaf: b.str(s)}
		for _, l := range c.trail {
			if !contains(l.a, leaf) {
				continue
			}
			t := b.subst(l.a, m)
			if t.op != "bool" || t.isTrue() != l.v {
				continue next
			}
		}
		if c.pc != nil && b.subst(c.pc, m).isFalse() || !c.asChosen(m) {
			continue
		}
		return true
	}
	return false
}

// pcFeasible: the path goes together with the precondition.
func (c *cmpr) pcFeasible() bool {
	if c.pc == nil || c.pc.isTrue() {
		return true
	}
	pc := c.pc
	for _, l := range c.trail {
		pc = c.with(l.a, l.v, pc)[0]
	}
	n := len(c.trail)
	defer func() { c.trail = c.trail[:n] }()
	leaves := 60
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.isFalse() {
			return false
		}
		if leaves--; leaves < 0 {
			return true
		}
		if t.isTrue() {
			return c.linFeasible()
		}
		a := bddTop(t)
		if a == nil {
			return true
		}
		for _, v := range []bool{true, false} {
			r := c.with(a, v, t)[0]
			if r.isFalse() {
				continue
			}
			c.trail = append(c.trail, lit{a: a, v: v})
			ok := (v || !a.isApp("eq0")) && !c.linFeasible()
			if !ok {
				ok = walk(r)
			} else {
				ok = false
			}
			c.trail = c.trail[:len(c.trail)-1]
			if ok {
				return true
			}
		}
		return false
	}
	return walk(pc)
}

func (c *cmpr) entangled(p, q *Term) bool {
	if p == q {
		return false
	}
	if !shareInputs(p, q) {
		return false
	}
	ap, aq := p.isApp("ge0") || p.isApp("lt0") || p.isApp("eq0"), q.isApp("ge0") || q.isApp("lt0") || q.isApp("eq0")
	if ap && aq {
		sp, sq := c.structured(p.args[0]), c.structured(q.args[0])
		// conditions about the same quantities are decided by arithmetic
		sub := func(a, b map[*Term]bool) bool {
			for k := range a {
				if !b[k] {
					return false
				}
			}
			return true
		}
		return !(sub(sp, sq) || sub(sq, sp))
	}
	if ap != aq {
		// a comparison of numbers over inputs against a condition on other data
		return !(c.input(p) && c.input(q))
	}
	if p.op == q.op && p.s == q.s && len(p.args) == len(q.args) {
		return c.cmpWithout(p, q) != vDiff
	}
	return !(c.input(p) && c.input(q))
}

// cmpWithout: the arguments of two conditions of the same form, on the path without the two.
func (c *cmpr) cmpWithout(p, q *Term) verdict {
	w, u := c.why, c.unk
	old := c.trail
	var rest []lit
	for _, l := range old {
		if l.a != p && l.a != q {
			rest = append(rest, l)
		}
	}
	c.trail = rest
	c.unk = ""
	v := c.cmpArgs(p.args, q.args)
	c.trail = old
	if v == vUnk && os.Getenv("VERIF_DEBUG") == "2" {
		fmt.Println("   WITHOUT", clip(p.s), c.unk)
	}
	c.why, c.unk = w, u
	return v
}

func hasTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// structured: the parts of a polynomial that are not plain inputs
func (c *cmpr) structured(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	ks, _ := c.b.polyParts(t)
	for _, k := range ks {
		if !c.input(k) {
			out[k] = true
		}
	}
	return out
}

func shareInputs(p, q *Term) bool {
	sp, sq := map[*Term]bool{}, map[*Term]bool{}
	leafSyms(p, sp)
	leafSyms(q, sq)
	for s := range sp {
		if sq[s] {
			return true
		}
	}
	return false
}

func leafSyms(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sym" {
			out[t] = true
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
}

// linFeasible: elimination over the linear conditions of the path.
func (c *cmpr) linFeasible() bool {
	if !c.linRows(nil) {
		return false
	}
	// a term that is not zero is on one side of it or the other
	var ne []*Term
	for _, l := range c.trail {
		if !l.v && l.a.isApp("eq0") && isIntTerm(c.b, l.a.args[0]) && len(ne) < 6 {
			ne = append(ne, l.a.args[0])
		}
	}
	one := c.b.int(1)
	var split func(i int, extra []*Term) bool
	split = func(i int, extra []*Term) bool {
		if i == len(ne) {
			return true
		}
		lo := append(extra[:len(extra):len(extra)], c.b.sub(c.b.neg(ne[i]), one))
		if c.linRows(lo) && split(i+1, lo) {
			return true
		}
		hi := append(extra[:len(extra):len(extra)], c.b.sub(ne[i], one))
		return c.linRows(hi) && split(i+1, hi)
	}
	return split(0, nil)
}

// linRows: linFeasible, with extra >= 0 as further conditions.
func (c *cmpr) linRows(extra []*Term) bool {
	b := c.b
	type row struct {
		m      map[*Term]*big.Rat
		k      *big.Rat
		strict bool
	}
	var rows []row
	vars := map[*Term]bool{}
	add := func(t *Term, strict bool) {
		r := row{m: map[*Term]*big.Rat{}, k: new(big.Rat), strict: strict}
		ks, cs := b.polyParts(t)
		for i, k := range ks {
			if k.op == "num" {
				r.k.Add(r.k, new(big.Rat).Mul(cs[i], k.r))
				continue
			}
			r.m[k] = cs[i]
			vars[k] = true
		}
		rows = append(rows, r)
	}
	for _, t := range extra {
		add(t, false)
	}
	for _, t := range c.assume {
		add(t, false)
	}
	for _, l := range c.trail {
		if l.a.op != "app" || len(l.a.args) == 0 {
			continue
		}
		t := l.a.args[0]
		switch l.a.s {
		case "ge0":
			if l.v {
				add(t, false)
			} else {
				add(b.sub(b.neg(t), b.int(1)), false)
			}
		case "lt0":
			if l.v {
				add(b.neg(t), true)
			} else {
				add(t, false)
			}
		case "eq0":
			if l.v {
				add(t, false)
				add(b.neg(t), false)
			}
		}
	}
	var vs []*Term
	for v := range vars {
		vs = append(vs, v)
		if b.nonnegAtom(v) {
			rows = append(rows, row{m: map[*Term]*big.Rat{v: ratOne}, k: new(big.Rat)})
		}
		if _, hi, ok := b.rng(v); ok && hi != nil {
			rows = append(rows, row{m: map[*Term]*big.Rat{v: big.NewRat(-1, 1)}, k: new(big.Rat).SetInt(hi)})
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		var pos, neg, non []row
		for _, r := range rows {
			switch cf := r.m[v]; {
			case cf == nil || cf.Sign() == 0:
				non = append(non, r)
			case cf.Sign() > 0:
				pos = append(pos, r)
			default:
				neg = append(neg, r)
			}
		}
		for _, p := range pos {
			for _, q := range neg {
				n := row{m: map[*Term]*big.Rat{}, k: new(big.Rat), strict: p.strict || q.strict}
				fp, fq := new(big.Rat).Neg(q.m[v]), p.m[v]
				acc := func(r row, f *big.Rat) {
					for k, x := range r.m {
						if n.m[k] == nil {
							n.m[k] = new(big.Rat)
						}
						n.m[k].Add(n.m[k], new(big.Rat).Mul(x, f))
					}
					n.k.Add(n.k, new(big.Rat).Mul(r.k, f))
				}
				acc(p, fp)
				acc(q, fq)
				non = append(non, n)
			}
		}
		rows = non
		if len(rows) > 2000 {
			return true
		}
	}
	for _, r := range rows {
		if r.k.Sign() < 0 || r.strict && r.k.Sign() == 0 {
			return false
		}
	}
	return true
}
