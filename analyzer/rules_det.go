package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C14", ruleC14) }

func ruleC14(p *Prog, r *Report) {
	r.rule("determinism of map iteration: in every loop over a map in a function reachable from the API, what one iteration leaves behind does not depend on which iterations came before: carried values are only maxima, commutative sums, constant flags or collections that are sorted before any other use; nothing is written to a buffer, slice or variable that outlives the loop; the loop is not left with a value of the current iteration")
	r.rule("no time, randomness or pointer value flows into a document: time.Now, math/rand, crypto/rand, os.Getpid and %p are reachable only from SetProtection")
	api := p.exportedAPI("", "render", "textbreak", "minigopdf")
	from := p.reach(api)
	eff := newEffects(p)
	for _, f := range p.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				nx, ok := in.(*ssa.Next)
				if !ok || nx.IsString {
					continue
				}
				n++
				key := fmt.Sprintf("%s/map loop %d", fname(f), n)
				if why := c14Exempt(p, f, nx); why != "" {
					r.ob(true, "map-order", key+" ("+why+")", p.pos(nx.Iter.(*ssa.Range).Pos()), "")
					continue
				}
				msg := mapLoop(p, eff, f, b, nx)
				r.ob(msg == "", "map-order", key, p.pos(nx.Iter.(*ssa.Range).Pos()), msg)
			}
		}
		// map iteration by library helpers
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					switch calleeName(c.Common()) {
					case "maps.Keys", "maps.Values", "(reflect.Value).MapKeys", "(*sync.Map).Range":
						r.ob(false, "map-order", fname(f)+"/"+calleeName(c.Common()), p.pos(in.Pos()), "unordered iteration by "+calleeName(c.Common()))
					}
				}
				switch in.(type) {
				case *ssa.Go, *ssa.Select:
					r.ob(false, "map-order", fname(f)+"/goroutine", p.pos(in.Pos()), "a goroutine or select makes the order of effects depend on scheduling")
				}
			}
		}
	}
	// time and randomness
	var roots []*ssa.Function
	for _, f := range p.exportedAPI("", "render", "textbreak") {
		if f.Name() != "SetProtection" {
			roots = append(roots, f)
		}
	}
	from2 := p.reach(roots)
	for _, f := range p.funcs {
		if _, ok := from2[f]; !ok {
			continue
		}
		bad := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				if strings.HasPrefix(n, "math/rand") || strings.HasPrefix(n, "(*math/rand") || strings.HasPrefix(n, "crypto/rand") || n == "time.Now" || n == "time.Since" || n == "os.Getpid" || n == "os.Hostname" || n == "os.Getenv" || n == "os.Environ" || n == "runtime.NumGoroutine" {
					bad = true
					r.ob(false, "no-ambient-input", fname(f)+"/"+n, p.pos(in.Pos()), n+" is reachable: "+chain(from2, f))
				}
				if strings.HasPrefix(n, "fmt.") {
					for _, a := range c.Common().Args {
						if s, ok := constString(a); ok && strings.Contains(s, "%p") {
							bad = true
							r.ob(false, "no-ambient-input", fname(f)+"/%p", p.pos(in.Pos()), "a pointer value is formatted")
						}
					}
				}
			}
		}
		if !bad {
			r.ob(true, "no-ambient-input", fname(f), p.pos(f.Pos()), "")
		}
	}
	r.floor("map-order", 8)
	r.floor("no-ambient-input", 100)
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind().String() != "String" {
		return "", false
	}
	return strings.Trim(c.Value.ExactString(), "\""), true
}

// c14Exempt: the loop over the crawl of one page's /Contents: only the page itself has entries in that crawl
// (its path has one element), every other result is empty and skipped, so the order cannot matter.
func c14Exempt(p *Prog, f *ssa.Function, nx *ssa.Next) string {
	var only func(f *ssa.Function, d int) bool
	only = func(f *ssa.Function, d int) bool {
		if f.Name() == "injectContentToPDF" {
			return true
		}
		if d > 4 || len(p.callers[f]) == 0 {
			return false
		}
		for _, c := range p.callers[f] {
			if !only(c.Parent(), d+1) {
				return false
			}
		}
		return true
	}
	if !only(f, 0) {
		return ""
	}
	if m, ok := nx.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok && strings.HasSuffix(m.Elem().String(), "crawlResult") {
		return "single-element crawl"
	}
	return ""
}

// mapLoop returns a description of an order-dependent effect of the loop, "" if there is none.
func mapLoop(p *Prog, eff *effects, f *ssa.Function, h *ssa.BasicBlock, nx *ssa.Next) string {
	loop := loopOf(h)
	carried := map[ssa.Value]bool{}
	// 1. values carried from iteration to iteration
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isErrorT(ph.Type()) {
			continue // which of several errors is reported
		}
		var back []ssa.Value
		for i, pr := range h.Preds {
			if loop[pr] {
				back = append(back, ph.Edges[i])
			}
		}
		if msg := carriedOK(p, f, loop, ph, func(v ssa.Value) bool { return v == ssa.Value(ph) }, back, ph); msg != "" {
			return fmt.Sprintf("%s (%s)", msg, ph.Comment)
		}
		carried[ph] = true
	}
	// 2. memory
	type cellKey string
	cells := map[ssa.Value][]*ssa.Store{}
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if rootOutside(x.Addr, loop) {
					k := cellOf(x.Addr, loop)
					cells[k] = append(cells[k], x)
				}
			case *ssa.MapUpdate:
				if !definedIn(x.Key, loop) && rootOutside(x.Map, loop) {
					if _, isC := x.Value.(*ssa.Const); !isC {
						return "one map entry is overwritten by every iteration at " + p.pos(x.Pos())
					}
				}
			case ssa.CallInstruction:
				if msg := callInLoop(p, eff, x, loop); msg != "" {
					return msg
				}
			}
		}
	}
	for k, ss := range cells {
		isCell := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && definedIn(u, loop) && cellOf(u.X, loop) == k
		}
		var vals []ssa.Value
		for _, s := range ss {
			vals = append(vals, s.Val)
		}
		if msg := carriedOK(p, f, loop, nil, isCell, vals, k); msg != "" {
			return msg + " at " + p.pos(ss[0].Pos())
		}
	}
	// 3. exits
	for b := range loop {
		for _, s := range b.Succs {
			if loop[s] || b == h {
				continue
			}
			if msg := exitOK(p, f, loop, b, s); msg != "" {
				return msg
			}
		}
	}
	// returns inside blocks that are not part of the natural loop but only reachable from it are handled as exits
	return ""
}

// cellOf canonicalises addresses: the same field of the same outer object is the same cell.
func cellOf(v ssa.Value, loop map[*ssa.BasicBlock]bool) ssa.Value {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if definedIn(x, loop) {
			base := cellOf(x.X, loop)
			for _, r := range *base.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == x.Field && fa.X == base {
					return fa // first referrer is the representative
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && definedIn(x, loop) {
			return x.X
		}
	}
	return v
}

func carriedOK(p *Prog, f *ssa.Function, loop map[*ssa.BasicBlock]bool, ph *ssa.Phi, isAcc func(ssa.Value) bool, back []ssa.Value, acc ssa.Value) string {
	leaves := map[ssa.Value]bool{}
	inner := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if isAcc(v) {
			return
		}
		if x, ok := v.(*ssa.Phi); ok && loop[x.Block()] && !inner[x] {
			inner[x] = true
			for _, e := range x.Edges {
				walk(e)
			}
			return
		}
		if inner[v] {
			return
		}
		leaves[v] = true
	}
	for _, b := range back {
		walk(b)
	}
	if len(leaves) == 0 {
		return ""
	}
	acclike := func(v ssa.Value) bool { return isAcc(v) || inner[v] }
	// uses of the accumulator inside the loop
	allowedUse := map[ssa.Instruction]bool{}
	invariant := 0
	needSort := false
	for l := range leaves {
		if !definedIn(l, loop) {
			invariant++
			continue
		}
		ok := false
		switch x := l.(type) {
		case *ssa.BinOp:
			isInt := false
			if bt, is := x.Type().Underlying().(*types.Basic); is && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
				isInt = true
			}
			switch x.Op {
			case token.ADD, token.OR, token.XOR, token.MUL, token.AND:
				if isInt && (acclike(x.X) != acclike(x.Y)) {
					ok = true
					allowedUse[x] = true
				}
			}
		case *ssa.Call:
			n := calleeName(x.Common())
			if n == "builtin.append" && acclike(x.Common().Args[0]) {
				needSort = true
				allowedUse[x] = true
				ok = true
			}
			if n == "builtin.max" || n == "builtin.min" || n == "math.Max" || n == "math.Min" {
				for _, a := range x.Common().Args {
					if acclike(a) {
						ok = true
						allowedUse[x] = true
					}
				}
			}
		}
		if !ok {
			// maximum: the new value is compared with the accumulator
			for b := range loop {
				for _, in := range b.Instrs {
					if c, is := in.(*ssa.BinOp); is {
						switch c.Op {
						case token.LSS, token.GTR, token.LEQ, token.GEQ:
							if (acclike(c.X) && sameVal(c.Y, l)) || (acclike(c.Y) && sameVal(c.X, l)) {
								ok = true
								allowedUse[c] = true
							}
						}
					}
				}
			}
		}
		if !ok {
			return fmt.Sprintf("a value of the current iteration (%s) is carried out of the loop", l.Name())
		}
	}
	if invariant > 1 {
		return "different constants are assigned by different iterations"
	}
	if invariant == len(leaves) {
		return "" // constant flag
	}
	if invariant > 0 && len(leaves) > invariant {
		return "an accumulator is reset inside the loop"
	}
	for b := range loop {
		for _, in := range b.Instrs {
			if allowedUse[in] {
				continue
			}
			if _, isPhi := in.(*ssa.Phi); isPhi {
				continue
			}
			if _, isD := in.(*ssa.DebugRef); isD {
				continue
			}
			if st, isS := in.(*ssa.Store); isS && ph == nil && leaves[st.Val] {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && acclike(*op) {
					return "the value accumulated so far is used inside the loop at " + p.pos(in.Pos())
				}
			}
		}
	}
	if needSort {
		if !sortedAfter(p, f, loop, acclike, acc) {
			return "a list is collected in iteration order and not sorted"
		}
	}
	return ""
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	// two loads of the same place, two projections of the same value
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == ub.Op {
		return sameVal(ua.X, ub.X)
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && fa.Field == fb.Field {
		return sameVal(fa.X, fb.X)
	}
	xa, ok1 := a.(*ssa.Field)
	xb, ok2 := b.(*ssa.Field)
	if ok1 && ok2 && xa.Field == xb.Field {
		return sameVal(xa.X, xb.X)
	}
	ia, ok1 := a.(*ssa.IndexAddr)
	ib, ok2 := b.(*ssa.IndexAddr)
	if ok1 && ok2 {
		return sameVal(ia.X, ib.X) && sameVal(ia.Index, ib.Index)
	}
	ca, ok1 := a.(*ssa.Convert)
	cb, ok2 := b.(*ssa.Convert)
	if ok1 && ok2 {
		return sameVal(ca.X, cb.X)
	}
	return false
}

func isSortCall(p *Prog, cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	switch {
	case n == "sort.Slice", n == "sort.SliceStable", strings.HasPrefix(n, "slices.SortFunc"), strings.HasPrefix(n, "slices.SortStableFunc"):
		return len(cc.Args) == 2 && comparesElements(cc.Args[1])
	case strings.HasPrefix(n, "sort."), strings.HasPrefix(n, "slices.Sort"):
		return true
	}
	return false
}

// sortArg: the argument the call sorts, -1 if none. A function of the repository that sorts a parameter on every path
// before it uses it otherwise counts as a sort.
func sortArg(p *Prog, cc *ssa.CallCommon) int {
	if isSortCall(p, cc) {
		return 0
	}
	g := cc.StaticCallee()
	if g == nil || !p.inLib[g] || g.Blocks == nil {
		return -1
	}
	for i, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Slice); !ok || i >= len(g.Params) {
			continue
		}
		if p.sorting[g] {
			return -1
		}
		if p.sorting == nil {
			p.sorting = map[*ssa.Function]bool{}
		}
		p.sorting[g] = true
		par := g.Params[i]
		ok := sortedAfter(p, g, nil, func(v ssa.Value) bool { return v == ssa.Value(par) }, par)
		// on every path: some sort dominates every return
		delete(p.sorting, g)
		if ok {
			return i
		}
	}
	return -1
}

// comparesElements: the comparison function compares whole elements, or whole fields of elements, somewhere:
// one that only compares parts or lengths leaves elements that are equal in that respect in the order they came in.
func comparesElements(v ssa.Value) bool {
	var fn *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		fn, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = x
	}
	if fn == nil || len(fn.Params) != 2 {
		return false
	}
	var elem func(v ssa.Value) bool
	elem = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			return x.Op == token.MUL && elem(x.X)
		case *ssa.IndexAddr:
			_, ok := x.Index.(*ssa.Parameter)
			return ok
		case *ssa.FieldAddr:
			return elem(x.X)
		case *ssa.Field:
			return elem(x.X)
		case *ssa.Convert:
			return elem(x.X)
		case *ssa.ChangeType:
			return elem(x.X)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ, token.SUB:
					if elem(x.X) && elem(x.Y) {
						return true
					}
				}
			case *ssa.Call:
				switch n := calleeName(x.Common()); {
				case n == "strings.Compare", n == "bytes.Compare", strings.HasPrefix(n, "cmp.Compare"), strings.HasPrefix(n, "cmp.Less"):
					if elem(x.Call.Args[0]) && elem(x.Call.Args[1]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// sortedAfter: after the loop the collected list is sorted, and no other use comes before the sort.
func sortedAfter(p *Prog, f *ssa.Function, loop map[*ssa.BasicBlock]bool, acclike func(ssa.Value) bool, acc ssa.Value) bool {
	// values outside that stand for the list
	vals := map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || vals[v] || loop[b] {
					continue
				}
				take := false
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if acclike(e) || vals[e] {
							take = true
						}
					}
				case *ssa.MakeInterface:
					take = acclike(x.X) || vals[x.X]
				case *ssa.ChangeType:
					take = acclike(x.X) || vals[x.X]
				case *ssa.UnOp:
					take = x.Op == token.MUL && (x.X == acc || cellOf(x.X, nil) == acc)
				case *ssa.MakeClosure:
					for _, bd := range x.Bindings {
						if vals[bd] || acclike(bd) || bd == acc {
							take = true
						}
					}
				}
				if take {
					vals[v] = true
					ch = true
				}
			}
		}
	}
	isList := func(v ssa.Value) bool { return v != nil && (vals[v] || acclike(v)) }
	var sorts []ssa.Instruction
	for _, b := range f.Blocks {
		if loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && usesList(c.Common(), isList) {
				if i := sortArg(p, c.Common()); i >= 0 && isList(c.Common().Args[i]) {
					sorts = append(sorts, in)
				}
			}
		}
	}
	_, isPar := acc.(*ssa.Parameter)
	isSort := func(c ssa.Instruction) bool {
		for _, s := range sorts {
			if s == c {
				return true
			}
		}
		return false
	}
	before := func(a, b ssa.Instruction) bool { // a before b
		if a.Block() == b.Block() {
			for _, in := range a.Block().Instrs {
				if in == a {
					return true
				}
				if in == b {
					return false
				}
			}
		}
		return a.Block().Dominates(b.Block())
	}
	for _, b := range f.Blocks {
		if loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.DebugRef, *ssa.MakeClosure, *ssa.UnOp:
				continue
			case *ssa.Call:
				if isSort(x) {
					continue
				}
				n := calleeName(x.Common())
				if n == "builtin.len" {
					continue
				}
			}
			uses := false
			for _, op := range in.Operands(nil) {
				if isList(*op) {
					uses = true
				}
			}
			if uses {
				ok := false
				for _, s := range sorts {
					if before(s, in) {
						ok = true
					}
				}
				if ret, is := in.(*ssa.Return); is && !ok && loop != nil {
					ok = sortedByCallers(p, f, ret, isList)
				}
				if !ok {
					return false
				}
			}
			if ret, is := in.(*ssa.Return); is && isPar && len(sorts) > 0 {
				// a helper that is to sort its parameter: it has on every path
				ok := false
				for _, s := range sorts {
					if before(s, ret) {
						ok = true
					}
				}
				if !ok {
					return false
				}
			}
		}
	}
	return len(sorts) > 0 || loop != nil
}

func usesList(cc *ssa.CallCommon, isList func(ssa.Value) bool) bool {
	for _, a := range cc.Args {
		if isList(a) {
			return true
		}
	}
	return false
}

// sortedByCallers: an unexported function returns the list as collected, and every caller sorts it before using it.
func sortedByCallers(p *Prog, f *ssa.Function, ret *ssa.Return, isList func(ssa.Value) bool) bool {
	if token.IsExported(f.Name()) || p.addrTaken[f] || len(p.callers[f]) == 0 || f.Parent() != nil {
		return false
	}
	for _, ci := range p.callers[f] {
		call, ok := ci.(*ssa.Call)
		if !ok {
			return false
		}
		for i, rv := range ret.Results {
			if !isList(rv) {
				continue
			}
			var v ssa.Value = call
			if len(ret.Results) > 1 {
				v = extractOf(call, i)
				if v == nil {
					continue
				}
			}
			if !sortedAfter(p, call.Parent(), nil, func(x ssa.Value) bool { return x == v }, v) {
				return false
			}
		}
	}
	return true
}

func callInLoop(p *Prog, eff *effects, c ssa.CallInstruction, loop map[*ssa.BasicBlock]bool) string {
	cc := c.Common()
	args := callArgs(cc)
	d := map[ssa.Value]bool{}
	for _, a := range args {
		if pointerLike(a.Type()) && rootOutside(a, loop) {
			d[a] = true
		}
	}
	n := calleeName(cc)
	if n == "builtin.append" || n == "builtin.delete" {
		return ""
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && !definedIn(mc, loop) {
		for _, bd := range mc.Bindings {
			d[bd] = true
		}
	}
	if len(d) == 0 {
		return ""
	}
	if w := eff.writesVia(c, d); w != "" {
		if strings.Contains(w, "map update") {
			return "" // filling a map
		}
		return fmt.Sprintf("each iteration writes to something that outlives the loop: %s (%s)", w, p.pos(c.Pos()))
	}
	return ""
}

// exitOK: leaving the loop early is fine with an error or with constants only.
func exitOK(p *Prog, f *ssa.Function, loop map[*ssa.BasicBlock]bool, from, to *ssa.BasicBlock) string {
	// values of this iteration that are used after the exit, outside the loop
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b, prev *ssa.BasicBlock) string
	walk = func(b, prev *ssa.BasicBlock) string {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, pr := range b.Preds {
					if pr == prev && definedIn(x.Edges[i], loop) && !isErrorT(x.Type()) && pr.Dominates(pr) && loop[pr] {
						if _, isPhi := x.Edges[i].(*ssa.Phi); isPhi && loop[x.Edges[i].(*ssa.Phi).Block()] && x.Edges[i].(*ssa.Phi).Block() == headerOf(loop) {
							return "the loop is left early with a value accumulated so far"
						}
						return "the loop is left early with a value of the current iteration"
					}
				}
			case *ssa.Return:
				ei := errIndex(f.Signature)
				if ei >= 0 && !isNilConst(x.Results[ei]) {
					if definedIn(x.Results[ei], loop) || definitelyNonNil(x.Results[ei]) {
						return ""
					}
				}
				for _, rv := range x.Results {
					if definedIn(rv, loop) {
						return "the function returns a value of the current iteration at " + p.pos(x.Pos())
					}
				}
				return ""
			}
		}
		if seen[b] {
			return ""
		}
		seen[b] = true
		for _, s := range b.Succs {
			if loop[s] {
				continue
			}
			if m := walk(s, b); m != "" {
				return m
			}
		}
		return ""
	}
	return walk(to, from)
}

func headerOf(loop map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	for b := range loop {
		ok := true
		for c := range loop {
			if !b.Dominates(c) {
				ok = false
			}
		}
		if ok {
			return b
		}
	}
	return nil
}
