package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"time"
)

// Small instances. Where two value graphs could not be related in general, they are compared once more for inputs on
// which every loop runs a fixed small number of times: the sequences and maps that are looped over have k elements,
// and the loops are unrolled. Only differences count: they are differences on those inputs.

const smallSize = 60000

type small struct {
	b    *TB
	k    int
	done map[*Term]bool
}

func (c *cmpr) smallInstances(x, y *Term) verdict {
	b := c.b
	end := b.deadline
	defer func() { b.deadline = end }()
	// all of them of one size, or one of them alone not empty
	for _, k := range []struct{ k, only, rest int }{{1, -1, 0}, {1, 0, 0}, {1, 1, 0}, {1, 2, 0}, {2, -1, 0}, {2, 0, 0}, {2, 1, 0}, {0, -1, 0}, {2, 0, 1}, {2, 1, 1}, {3, -1, 0}} {
		if !end.IsZero() {
			b.deadline = time.Now().Add(time.Until(end) / 3)
		}
		d := newCmp(c.e)
		d.ws = c.ws
		chosen := 0
		v := func() (v verdict) {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(undecided); !is || time.Now().After(end) {
						panic(x)
					}
					v = vUnk
				}
			}()
			return d.small(k.k, k.only, k.rest, &chosen, x, y, c.pc)
		}()
		if v == vDiff {
			c.why = d.why
			return vDiff
		}
		if k.only < 0 && chosen == 0 {
			break
		}
	}
	return vUnk
}

func (c *cmpr) small(k, only, others int, chosen *int, x, y, pc *Term) (v verdict) {
	b := c.b
	s := &small{b: b, k: k, done: map[*Term]bool{}}
	dbg := os.Getenv("VERIF_DEBUG") == "2"
	if pc == nil {
		pc = b.T()
	}
	for round := 0; round < 60; round++ {
		r := s.expand([]*Term{x, y, pc})
		x, y, pc = r[0], r[1], r[2]
		x, y = b.restrict(x, pc), b.restrict(y, pc)
		if dagSize(x, y, pc) > smallSize || pc.isFalse() {
			if dbg {
				fmt.Println("   small", k, round, "given up: sizes", dagSize(x), dagSize(y), dagSize(pc), pc.isFalse())
			}
			return vUnk
		}
		if x == y {
			return vSame
		}
		if s.k = k; only >= 0 && *chosen != only {
			s.k = others
		}
		m := s.choose(x, y, pc)
		if m == nil {
			break
		}
		*chosen++
		for k, v := range m {
			c.insts = append(c.insts, [2]*Term{k, v})
		}
		x, y, pc = b.subst(x, m), b.subst(y, m), b.subst(pc, m)
	}
	c.pc = pc
	c.assume = c.e.factsOf(pc)
	v = c.cmp(x, y)
	if dbg {
		fmt.Println("   small", k, v, dagSize(x), dagSize(y), c.why, c.unk)
		if v == vUnk {
			n := 6
			structDiff(x, y, "", &n)
		}
	}
	return v
}

// expand unrolls the loops whose number of steps is a small constant.
func (s *small) expand(ts []*Term) []*Term {
	b := s.b
	for i := 0; i < 40; i++ {
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "ptr" {
				if k := t.aux.(*Obj).key; k != nil {
					w(k)
				}
			}
			if isBinder(t.op) {
				n := t.args[s.countArg(t)]
				if ok, max := numLeaves(n); ok && max <= 6 {
					m[t] = b.mapIte(n, func(n *Term) *Term {
						v, _ := n.intVal()
						return s.unroll(t, int(v))
					})
					return
				}
				w(n)
				if t.op == "fold" {
					for _, a := range t.args[1 : 1+(len(t.args)-1)/2] {
						w(a)
					}
				}
				return
			}
			if t.isApp("keys") {
				if r := s.keys(t); r != nil {
					m[t] = r
					return
				}
			}
			for _, a := range t.args {
				w(a)
			}
		}
		for _, t := range ts {
			w(t)
		}
		if len(m) == 0 {
			break
		}
		out := make([]*Term, len(ts))
		for i, t := range ts {
			out[i] = b.subst(t, m)
		}
		ts = out
		if dagSize(ts...) > smallSize {
			break
		}
	}
	return ts
}

// keys of a map with at most one entry (the order of more of them is not known).
func (s *small) keys(t *Term) *Term {
	b := s.b
	ok := true
	var chk func(m *Term)
	chk = func(m *Term) {
		switch {
		case m.op == "ite":
			chk(m.args[1])
			chk(m.args[2])
		case m.isApp("mempty"):
		case m.isApp("mput") && m.args[0].isApp("mempty"):
		default:
			ok = false
		}
	}
	chk(t.args[0])
	if !ok {
		return nil
	}
	return b.mapIte(t.args[0], func(m *Term) *Term {
		if m.isApp("mempty") {
			return b.cat()
		}
		return b.unit(m.args[1])
	})
}

func (s *small) countArg(t *Term) int {
	if t.op == "meach" {
		return 1
	}
	return 0
}

// numLeaves: t is a number in every case.
func numLeaves(t *Term) (bool, int64) {
	if t.op == "ite" {
		a, x := numLeaves(t.args[1])
		b, y := numLeaves(t.args[2])
		if y > x {
			x = y
		}
		return a && b, x
	}
	v, ok := t.intVal()
	return ok, v
}

func (s *small) unroll(t *Term, n int) *Term {
	b := s.b
	l, _ := strconv.Atoi(t.s)
	at := func(x *Term, i int) *Term { return b.subst(x, map[*Term]*Term{b.bv(l): b.int(int64(i))}) }
	switch t.op {
	case "star":
		var ps []*Term
		for i := 0; i < n; i++ {
			ps = append(ps, at(t.args[1], i))
		}
		return b.cat(ps...)
	case "sum":
		r := b.int(0)
		for i := 0; i < n; i++ {
			r = b.add(r, at(t.args[1], i))
		}
		return r
	case "first":
		if n < 0 {
			n = 0
		}
		r := b.int(int64(n))
		for i := n - 1; i >= 0; i-- {
			r = b.ite(at(t.args[1], i), b.int(int64(i)), r)
		}
		return r
	case "meach":
		r := t.args[0]
		for i := 0; i < n; i++ {
			r = b.ite(at(t.args[2], i), b.mput(r, at(t.args[3], i), at(t.args[4], i)), r)
		}
		return r
	case "fold":
		lv, inits, steps, accs := foldParts(b, t)
		cur := inits
		for i := 0; i < n; i++ {
			m := map[*Term]*Term{b.bv(lv): b.int(int64(i))}
			for j := range accs {
				m[accs[j]] = cur[j]
			}
			var next []*Term
			for _, st := range steps {
				next = append(next, b.subst(st, m))
			}
			cur = next
			if dagSize(cur...) > smallSize {
				return t
			}
		}
		return cur[0]
	}
	return t
}

// choose: a sequence that is looped over, and is not made by a loop itself, gets k elements.
func (s *small) choose(ts ...*Term) map[*Term]*Term {
	b := s.b
	var atom *Term
	var scale, rest *Term
	seen := map[*Term]bool{}
	var look func(n *Term) bool
	look = func(n *Term) bool {
		if n.op == "ite" {
			return look(n.args[1]) || look(n.args[2])
		}
		ks, cs := b.polyParts(n)
		for i, a := range ks {
			if a.op == "num" || s.done[a] || hasBinder(a) || a.op == "sym" && a.s == "∞" {
				continue
			}
			if new(big.Rat).Abs(cs[i]).Cmp(ratOne) != 0 || !isIntTerm(b, a) {
				continue
			}
			atom = a
			scale = b.sub(n, b.scale(a, cs[i]))
			rest = b.scale(b.sub(b.int(int64(s.k)), scale), cs[i])
			return true
		}
		return false
	}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "ptr" {
			if k := t.aux.(*Obj).key; k != nil && walk(k) {
				return true
			}
		}
		if isBinder(t.op) {
			if walk(t.args[s.countArg(t)]) {
				return true
			}
			if look(t.args[s.countArg(t)]) {
				return true
			}
			if t.op == "fold" {
				for _, a := range t.args[1 : 1+(len(t.args)-1)/2] {
					if walk(a) {
						return true
					}
				}
			}
			return false
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if walk(t) {
			break
		}
	}
	if atom == nil {
		return nil
	}
	s.done[atom] = true
	m := map[*Term]*Term{}
	if atom.isApp("len") {
		seq := atom.args[0]
		et := elemTypeIn(seq, ts)
		if v, ok := rest.intVal(); ok && et != nil {
			if v < 0 {
				return map[*Term]*Term{atom: b.int(0)}
			}
			if bt, ok := et.Underlying().(*types.Basic); ok && (bt.Kind() == types.Uint8 || bt.Kind() == types.Int32) {
				m[atom] = rest
				return m
			}
			var us []*Term
			for i := int64(0); i < v; i++ {
				us = append(us, b.unit(b.idx(seq, b.int(i), et)))
			}
			m[seq] = b.cat(us...)
			return m
		}
	}
	m[atom] = rest
	return m
}

func hasBinder(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if isBinder(t.op) {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func elemTypeIn(seq *Term, ts []*Term) types.Type {
	seen := map[*Term]bool{}
	var r types.Type
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || r != nil {
			return
		}
		seen[t] = true
		if t.isApp("idx") && t.args[0] == seq && t.typ != nil {
			r = t.typ
			return
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	return r
}

// dagSize: the number of different subterms.
func dagSize(ts ...*Term) int {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	return len(seen)
}
