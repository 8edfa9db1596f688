package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C29, second part: a result that may be missing (nil pointer or interface) is not dereferenced before the
// program has asked whether it is there. Flow-sensitive: from each place where such a value arises, every path on
// which it may still be nil is followed until the question is asked or the value is used.

func init() {
	moreRules["C29"] = append(moreRules["C29"], ruleNil)
}

type nilAn struct {
	p     *Prog
	plain map[*ssa.Function]map[int]bool // result may be nil although no error is returned
	deref map[*ssa.Function]map[int]int  // parameter is dereferenced while it may be nil: 1 no, 2 yes, 3 in progress
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return !isErrorT(t)
	}
	return false
}

// mayNil: v may be nil where it is returned.
func (n *nilAn) mayNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Phi:
		for _, e := range v.Edges {
			if n.mayNil(e, seen) {
				return true
			}
		}
	case *ssa.Call:
		return n.plainRes(v, 0)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return n.plainRes(c, v.Index)
		}
	case *ssa.Lookup:
		return !v.CommaOk && isMap(v.X.Type()) && !n.known(v)
	}
	return false
}

func isMap(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func (n *nilAn) plainRes(c *ssa.Call, i int) bool {
	for _, f := range n.p.callees[c] {
		if n.plain[f][i] {
			return true
		}
	}
	return false
}

func (n *nilAn) summarise() {
	for changed := true; changed; {
		changed = false
		for _, f := range n.p.funcs {
			res := f.Signature.Results()
			for _, b := range f.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				hasErr := res.Len() > 0 && isErrorT(res.At(res.Len()-1).Type())
				if hasErr && !isNilConst(r.Results[res.Len()-1]) {
					continue
				}
				for i := 0; i < res.Len(); i++ {
					if !nilable(res.At(i).Type()) || n.plain[f][i] {
						continue
					}
					if n.mayNil(r.Results[i], map[ssa.Value]bool{}) && n.unchecked(f, r, r.Results[i]) {
						if n.plain[f] == nil {
							n.plain[f] = map[int]bool{}
						}
						n.plain[f][i] = true
						changed = true
					}
				}
			}
		}
	}
}

// unchecked: the returned value can still be nil at the return (a constant always can).
func (n *nilAn) unchecked(f *ssa.Function, r *ssa.Return, v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	if _, ok := v.(*ssa.Phi); ok {
		return true
	}
	found := false
	n.follow(f, v, nil, nil, func(in ssa.Instruction, t map[ssa.Value]bool) bool {
		if in == ssa.Instruction(r) {
			found = true
		}
		return found
	})
	return found
}

// follow walks every path from the definition of v on which v may still be nil and calls visit for each instruction.
func (n *nilAn) follow(f *ssa.Function, v ssa.Value, errv, okv ssa.Value, visit func(ssa.Instruction, map[ssa.Value]bool) bool) {
	type state struct {
		b   *ssa.BasicBlock
		key string
	}
	seen := map[state]bool{}
	keyOf := func(t map[ssa.Value]bool) string {
		var s []string
		for x := range t {
			s = append(s, x.Name())
		}
		sort.Strings(s)
		return fmt.Sprint(s)
	}
	var walk func(b *ssa.BasicBlock, from int, t map[ssa.Value]bool) bool
	edge := func(b, s *ssa.BasicBlock, t map[ssa.Value]bool) bool {
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
			}
		}
		nt := map[ssa.Value]bool{}
		for x := range t {
			nt[x] = true
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(nt, ph)
			if pi >= 0 && t[ph.Edges[pi]] {
				nt[ph] = true
			}
		}
		return walk(s, 0, nt)
	}
	walk = func(b *ssa.BasicBlock, from int, t map[ssa.Value]bool) bool {
		if from == 0 {
			k := state{b, keyOf(t)}
			if seen[k] || len(seen) > 5000 {
				return false
			}
			seen[k] = true
		}
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if x, ok := in.(ssa.Value); ok && x == v {
				return false // defined anew
			}
			if errv != nil && n.tupleOf(v) != nil {
				if x, ok := in.(ssa.Value); ok && x == n.tupleOf(v) {
					return false
				}
			}
			if l, ok := v.(*ssa.Lookup); ok {
				if u, isU := in.(*ssa.MapUpdate); isU && u.Key == l.Index && sameMap(u.Map, l.X) {
					return false
				}
			}
			if visit(in, t) {
				return true
			}
			iff, ok := in.(*ssa.If)
			if !ok {
				continue
			}
			switch q, nilEdge := n.asks(iff.Cond, t, errv, okv); {
			case q == 2: // the question itself
				return edge(b, b.Succs[nilEdge], t)
			case q == 1: // something computed from it: assumed to be the question
				return false
			}
		}
		for _, s := range b.Succs {
			if edge(b, s, t) {
				return true
			}
		}
		return false
	}
	t := map[ssa.Value]bool{v: true}
	if pa, ok := v.(*ssa.Parameter); ok {
		_ = pa
		walk(f.Blocks[0], 0, t)
		return
	}
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil {
		return
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			walk(in.Block(), i+1, t)
			return
		}
	}
}

func (n *nilAn) tupleOf(v ssa.Value) ssa.Value {
	if e, ok := v.(*ssa.Extract); ok {
		return e.Tuple
	}
	return nil
}

// asks: 2 when the condition is the comparison with nil (or the error or ok result that goes with the value) and the
// branch taken when the value is missing; 1 when the condition is computed from such a comparison; 0 otherwise.
func (n *nilAn) asks(c ssa.Value, t map[ssa.Value]bool, errv, okv ssa.Value) (int, int) {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		q, e := n.asks(u.X, t, errv, okv)
		return q, 1 - e
	}
	if okv != nil && c == okv {
		return 2, 1
	}
	if b, ok := c.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		x, y := b.X, b.Y
		if isNilConst(x) {
			x, y = y, x
		}
		eq := 0
		if b.Op == token.NEQ {
			eq = 1
		}
		if isNilConst(y) {
			if t[x] {
				return 2, eq
			}
			if errv != nil && x == errv {
				return 2, 1 - eq
			}
		}
		if k, isC := y.(*ssa.Const); isC && okv != nil && x == okv && k.Value != nil && k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) {
				return 2, 1 - eq
			}
			return 2, eq
		}
	}
	if n.depends(c, t, errv, okv, map[ssa.Value]bool{}, 0) {
		return 1, 0
	}
	return 0, 0
}

func (n *nilAn) depends(c ssa.Value, t map[ssa.Value]bool, errv, okv ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if c == nil || seen[c] || d > 12 {
		return false
	}
	seen[c] = true
	if t[c] || errv != nil && c == errv || okv != nil && c == okv {
		return true
	}
	switch c.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.TypeAssert:
	default:
		return false
	}
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.MUL {
		return false // what the value points to is not the question
	}
	if ph, ok := c.(*ssa.Phi); ok {
		// a flag: which constant it is depends on the conditions that lead there
		for _, p := range ph.Block().Preds {
			for q := p; q != nil; q = q.Idom() {
				if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && n.depends(iff.Cond, t, errv, okv, seen, d+1) {
					return true
				}
			}
		}
	}
	var ops []*ssa.Value
	for _, o := range c.(ssa.Instruction).Operands(ops) {
		if o != nil && *o != nil && n.depends(*o, t, errv, okv, seen, d+1) {
			return true
		}
	}
	return false
}

// derefs: the instruction fails when one of the tracked values is nil; "" if not.
func (n *nilAn) derefs(in ssa.Instruction, t map[ssa.Value]bool) string {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		if t[in.X] {
			return "field access"
		}
	case *ssa.IndexAddr:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok && t[in.X] {
			return "element access"
		}
	case *ssa.UnOp:
		if in.Op == token.MUL && t[in.X] {
			return "dereference"
		}
	case *ssa.Store:
		if t[in.Addr] {
			return "store"
		}
	case ssa.CallInstruction:
		if _, d := in.(*ssa.Defer); d {
			return ""
		}
		c := in.Common()
		if c.IsInvoke() {
			if t[c.Value] {
				return "method call " + c.Method.Name()
			}
		}
		for i, a := range c.Args {
			if !t[a] {
				continue
			}
			j := i
			if c.IsInvoke() {
				j++
			}
			fs := n.p.callees[in]
			all := len(fs) > 0
			for _, f := range fs {
				if !n.derefsParam(f, j) {
					all = false
				}
			}
			if all {
				return "passed to " + fs[0].Name() + ", which dereferences it"
			}
			if len(fs) == 0 && c.StaticCallee() != nil && !n.p.inLib[c.StaticCallee()] {
				if _, ok := a.Type().Underlying().(*types.Interface); ok && !isEmptyIface(a.Type()) {
					return "passed to " + c.StaticCallee().Name()
				}
			}
		}
	}
	return ""
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// derefsParam: some path from the start of f dereferences the parameter before asking whether it is nil.
func (n *nilAn) derefsParam(f *ssa.Function, i int) bool {
	if f.Blocks == nil || i >= len(f.Params) {
		return false
	}
	if n.deref[f] == nil {
		n.deref[f] = map[int]int{}
	}
	switch n.deref[f][i] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	n.deref[f][i] = 3
	res := false
	n.follow(f, f.Params[i], nil, nil, func(in ssa.Instruction, t map[ssa.Value]bool) bool {
		if n.derefs(in, t) != "" {
			res = true
		}
		return res
	})
	n.deref[f][i] = 1
	if res {
		n.deref[f][i] = 2
	}
	return res
}

func ruleNil(p *Prog, r *Report) {
	n := &nilAn{p: p, plain: map[*ssa.Function]map[int]bool{}, deref: map[*ssa.Function]map[int]int{}}
	n.summarise()
	var derefSite = func(f *ssa.Function, v, errv, okv ssa.Value) (ssa.Instruction, string) {
		var site ssa.Instruction
		why := ""
		n.follow(f, v, errv, okv, func(in ssa.Instruction, t map[ssa.Value]bool) bool {
			if w := n.derefs(in, t); w != "" {
				site, why = in, w
				return true
			}
			return false
		})
		return site, why
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				var val, errv, okv ssa.Value
				what := ""
				switch x := v.(type) {
				case *ssa.Call:
					res := x.Call.Signature().Results()
					if res.Len() == 1 && nilable(res.At(0).Type()) && n.plainRes(x, 0) {
						val, what = x, "the result of "+calleeName(&x.Call)+", which is nil when nothing is found"
					}
				case *ssa.Extract:
					switch tu := x.Tuple.(type) {
					case *ssa.Call:
						res := tu.Call.Signature().Results()
						if !nilable(res.At(x.Index).Type()) {
							continue
						}
						last := res.Len() - 1
						if n.plainRes(tu, x.Index) {
							for k := 0; k < res.Len(); k++ {
								if bt, ok := res.At(k).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
									okv = extractOf(tu, k)
								}
							}
							val, what = x, "a result of "+calleeName(&tu.Call)+", which may be nil without an error"
						} else if isErrorT(res.At(last).Type()) && n.fails(tu) {
							val, what = x, "a result of "+calleeName(&tu.Call)+", which is nil when the call fails"
							errv = extractOf(tu, last)
						}
					case *ssa.Lookup:
						if x.Index == 0 && nilable(x.Type()) && isMap(tu.X.Type()) {
							val, what = x, "a map entry that may be missing"
							okv = extractOf(tu, 1)
						}
					}
				case *ssa.Lookup:
					if !x.CommaOk && isMap(x.X.Type()) && nilable(x.Type()) && n.byParam(x, x.Index, 0) {
						val, what = x, "a map entry that may be missing"
					}
				}
				if val == nil {
					continue
				}
				if l, ok := val.(*ssa.Lookup); ok && n.known(l) {
					r.ob(true, "nil-checked", f.String()+":"+what, p.pos(in.Pos()), "")
					continue
				}
				site, why := derefSite(f, val, errv, okv)
				at := p.pos(in.Pos())
				if site != nil {
					at = p.pos(site.Pos())
				}
				r.ob(site == nil, "nil-checked", f.String()+":"+what, at, fmt.Sprintf("%s (obtained at %s) is used without asking whether it is there: %s", what, p.pos(in.Pos()), why))
			}
		}
	}
}

// fails: the call can fail and then has no value to return.
func (n *nilAn) fails(c *ssa.Call) bool {
	fs := n.p.callees[c]
	if len(fs) == 0 {
		sc := c.Call.StaticCallee()
		if sc == nil || n.p.inLib[sc] {
			return false
		}
		return c.Call.Signature().Results().At(0).Type().String() != "*os.File"
	}
	for _, f := range fs {
		res := f.Signature.Results()
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !isNilConst(r.Results[res.Len()-1]) {
				for i := 0; i < res.Len()-1; i++ {
					if nilable(res.At(i).Type()) && n.mayNil(r.Results[i], map[ssa.Value]bool{}) {
						return true
					}
				}
			}
		}
	}
	return false
}

func extractOf(tu ssa.Value, i int) ssa.Value {
	for _, r := range *tu.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

// sameMap: two map operands are loads of the same field, variable or value.
func sameMap(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || la.Op != token.MUL || lb.Op != token.MUL {
		return false
	}
	if la.X == lb.X {
		return true
	}
	fa, ok1 := la.X.(*ssa.FieldAddr)
	fb, ok2 := lb.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type())
}

// byParam: the key comes straight from the caller of an exported function (through helpers, none of which asked).
func (n *nilAn) byParam(l *ssa.Lookup, v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Parameter:
			f := x.Parent()
			if token.IsExported(f.Name()) {
				return true
			}
			for i, q := range f.Params {
				if q != x {
					continue
				}
				for _, c := range n.p.callers[f] {
					if c.Common().IsInvoke() || i >= len(c.Common().Args) {
						continue
					}
					a := c.Common().Args[i]
					asked := false
					for _, b := range c.Parent().Blocks {
						for _, in := range b.Instrs {
							if o, ok := in.(*ssa.Lookup); ok && o.Index == a {
								asked = true
							}
						}
					}
					if !asked && n.byParam(l, a, d+1) {
						return true
					}
				}
			}
			return false
		}
		return false
	}
}

// known: the entry was put there, or found there, before on every path.
func (n *nilAn) known(l *ssa.Lookup) bool {
	for b := l.Block(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if in == ssa.Instruction(l) {
				break
			}
			if u, ok := in.(*ssa.MapUpdate); ok && u.Key == l.Index && sameMap(u.Map, l.X) {
				return true
			}
		}
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if n.asksFor(iff.Cond, l, map[ssa.Value]bool{}) && !n.onlyMissing(iff, l) {
			return true
		}
	}
	return false
}

// asksFor: the condition is computed from another lookup of the same entry.
func (n *nilAn) asksFor(c ssa.Value, l *ssa.Lookup, seen map[ssa.Value]bool) bool {
	if c == nil || seen[c] {
		return false
	}
	seen[c] = true
	if o, ok := c.(*ssa.Lookup); ok {
		return o != l && o.Index == l.Index && sameMap(o.X, l.X)
	}
	switch c.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Extract:
	default:
		return false
	}
	var ops []*ssa.Value
	for _, o := range c.(ssa.Instruction).Operands(ops) {
		if o != nil && *o != nil && n.asksFor(*o, l, seen) {
			return true
		}
	}
	return false
}

// onlyMissing: the lookup is reached on the branch where the entry is known to be missing.
func (n *nilAn) onlyMissing(iff *ssa.If, l *ssa.Lookup) bool {
	c, miss := iff.Cond, 1
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, miss = u.X, 1-miss
	}
	if e, ok := c.(*ssa.Extract); !ok || e.Index != 1 {
		return false
	}
	// reachable from the branch where it is missing
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == l.Block() {
			return true
		}
		if seen[b] || b == iff.Block() {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(iff.Block().Succs[miss])
}
