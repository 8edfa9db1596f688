package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", ruleC16)
	register("C32", ruleC32)
	moreRules["C15"] = append(moreRules["C15"], ruleC15)
}

// ---------- which calls can fail

func bufferLike(t types.Type) bool {
	s := t.String()
	return s == "*bytes.Buffer" || s == "*strings.Builder"
}

// neverFails: library calls whose error result is documented to be always nil.
func neverFails(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	base := n[strings.LastIndex(n, ".")+1:]
	if strings.HasPrefix(n, "(*bytes.Buffer).") && (strings.HasPrefix(base, "Write") && base != "WriteTo") {
		return true
	}
	if strings.HasPrefix(n, "(*strings.Builder).") {
		return true
	}
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") {
		return true
	}
	if strings.HasPrefix(n, "(hash.Hash") || n == "(*math/rand.Rand).Read" {
		return true
	}
	if strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" {
		if m, ok := cc.Args[0].(*ssa.MakeInterface); ok && bufferLike(m.X.Type()) {
			return true
		}
		if strings.HasSuffix(cc.Args[0].Type().String(), "hash.Hash") {
			return true
		}
		if c, ok := cc.Args[0].(*ssa.ChangeInterface); ok && strings.HasSuffix(c.X.Type().String(), "hash.Hash") {
			return true
		}
	}
	if n == "(*bytes.Reader).Seek" && len(cc.Args) == 3 {
		// a constant position that is not negative
		o, ok1 := cc.Args[1].(*ssa.Const)
		wh, ok2 := cc.Args[2].(*ssa.Const)
		if ok1 && ok2 && o.Int64() >= 0 && wh.Int64() >= 0 && wh.Int64() <= 2 {
			return true
		}
	}
	if n == "(*bytes.Buffer).WriteTo" || n == "io.Copy" {
		// into a memory buffer
		if m, ok := cc.Args[len(cc.Args)-1].(*ssa.MakeInterface); ok && n != "io.Copy" && bufferLike(m.X.Type()) {
			return true
		}
	}
	return false
}

// failInfo: why can a function return a non-nil error? "other" or only because writing to a writer parameter failed.
type failInfo struct {
	p   *Prog
	why map[*ssa.Function]*failWhy
}

type failWhy struct {
	other bool
	param map[int]bool
}

func (w *failWhy) add(o *failWhy) bool {
	ch := false
	if o.other && !w.other {
		w.other, ch = true, true
	}
	for i := range o.param {
		if !w.param[i] {
			w.param[i], ch = true, true
		}
	}
	return ch
}

func newFail(p *Prog) *failInfo {
	fi := &failInfo{p: p, why: map[*ssa.Function]*failWhy{}}
	for _, f := range p.funcs {
		fi.why[f] = &failWhy{param: map[int]bool{}}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcs {
			ei := errIndex(f.Signature)
			if ei < 0 {
				continue
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && ei < len(ret.Results) {
					if fi.why[f].add(fi.cause(ret.Results[ei], map[ssa.Value]bool{})) {
						ch = true
					}
				}
			}
		}
	}
	return fi
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

var failOther = &failWhy{other: true}

func (fi *failInfo) cause(v ssa.Value, seen map[ssa.Value]bool) *failWhy {
	out := &failWhy{param: map[int]bool{}}
	if seen[v] {
		return out
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return out
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			out.add(fi.cause(e, seen))
		}
		return out
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return fi.callWhy(c)
		}
	case *ssa.Call:
		return fi.callWhy(x)
	}
	return failOther
}

// writerWhy: can writing to this value fail?
func (fi *failInfo) writerWhy(w ssa.Value) *failWhy {
	out := &failWhy{param: map[int]bool{}}
	for {
		switch x := w.(type) {
		case *ssa.ChangeInterface:
			w = x.X
			continue
		case *ssa.MakeInterface:
			if bufferLike(x.X.Type()) {
				return out
			}
			if g := fi.p.methodOf(x.X.Type(), "Write"); g != nil && fi.p.inLib[fi.p.unwrap(g)] {
				y := fi.why[fi.p.unwrap(g)]
				if !y.other && len(y.param) == 0 {
					return out
				}
			}
			return failOther
		case *ssa.Parameter:
			for i, pa := range x.Parent().Params {
				if pa == x {
					out.param[i] = true
				}
			}
			return out
		}
		if bufferLike(w.Type()) || strings.HasSuffix(w.Type().String(), "hash.Hash") {
			return out
		}
		return failOther
	}
}

func (fi *failInfo) callWhy(c ssa.CallInstruction) *failWhy {
	out := &failWhy{param: map[int]bool{}}
	cc := c.Common()
	if neverFails(cc) {
		return out
	}
	if cc.IsInvoke() && cc.Method.Name() == "Write" && !fi.p.repoIface(cc.Value.Type()) {
		return fi.writerWhy(cc.Value)
	}
	switch calleeName(cc) {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		return fi.writerWhy(cc.Args[0])
	}
	cs := fi.p.callees[c]
	if len(cs) == 0 || (cc.IsInvoke() && !fi.p.repoIface(cc.Value.Type())) {
		return failOther
	}
	for _, g := range cs {
		if !fi.p.inLib[g] {
			return failOther
		}
		w := fi.why[g]
		if w.other {
			return failOther
		}
		for i := range w.param {
			j := i
			if cc.IsInvoke() {
				j--
			}
			if j < 0 || j >= len(cc.Args) {
				return failOther
			}
			out.add(fi.writerWhy(cc.Args[j]))
		}
	}
	return out
}

func (fi *failInfo) callCanFail(c ssa.CallInstruction) bool {
	w := fi.callWhy(c)
	return w.other || len(w.param) > 0
}

// repoIface: an interface declared in the repo (its implementations are the repo's).
func (p *Prog) repoIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && p.isLibPkg(n.Obj().Pkg())
}

// ---------- typestate of one error value

type errSite struct {
	f    *ssa.Function
	call ssa.CallInstruction
	errv ssa.Value // nil if dropped
}

func errSitesOf(p *Prog, f *ssa.Function) []errSite {
	var out []errSite
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			sig := c.Common().Signature()
			ei := errIndex(sig)
			if ei < 0 {
				continue
			}
			s := errSite{f: f, call: c}
			if v := c.Value(); v != nil {
				if sig.Results().Len() == 1 {
					if len(nonDebug(v)) > 0 {
						s.errv = v
					}
				} else {
					for _, r := range *v.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == ei && len(nonDebug(e)) > 0 {
							s.errv = e
						}
					}
					for _, r := range *v.Referrers() {
						if _, ok := r.(*ssa.Return); ok {
							s.errv = v
						}
					}
				}
			}
			out = append(out, s)
		}
	}
	return out
}

func nonDebug(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

type errState struct {
	nonnil   bool
	examined bool
	vals     map[ssa.Value]bool // values equal to the error (or derived from it)
	cells    map[ssa.Value]bool // cells that hold it
}

func (s errState) key(b *ssa.BasicBlock) string {
	var ks []string
	for v := range s.vals {
		ks = append(ks, v.Name())
	}
	for v := range s.cells {
		ks = append(ks, "*"+v.Name())
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d|%v|%v|%s", b.Index, s.nonnil, s.examined, strings.Join(ks, ","))
}

func (s errState) clone() errState {
	n := errState{nonnil: s.nonnil, examined: s.examined, vals: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}}
	for k := range s.vals {
		n.vals[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	return n
}

// errBranch classifies a branch condition about the tracked error: +1 true side means non-nil, -1 true side
// means nil, 2 true side means "equals a particular error", -2 the negation; 0 unrelated.
func errBranch(cond ssa.Value, vals map[ssa.Value]bool) int {
	neg := 1
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond = u.X
			neg = -neg
			continue
		}
		break
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		var o ssa.Value
		if vals[x.X] {
			o = x.Y
		} else if vals[x.Y] {
			o = x.X
		} else {
			return 0
		}
		if isNilConst(o) {
			if x.Op == token.NEQ {
				return neg
			} else if x.Op == token.EQL {
				return -neg
			}
			return 0
		}
		if x.Op == token.EQL {
			return 2 * neg
		} else if x.Op == token.NEQ {
			return -2 * neg
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		if (n == "errors.Is" || n == "errors.As" || n == "os.IsNotExist" || n == "os.IsExist") && vals[x.Common().Args[0]] {
			return 2 * neg
		}
	}
	return 0
}

// failsAnyway: every path after the call returns an error that is there already.
func failsAnyway(c ssa.CallInstruction) bool {
	f := c.Parent()
	ei := errIndex(f.Signature)
	if ei < 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	ok, any := true, false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !ok {
			return
		}
		seen[b] = true
		if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			any = true
			v := ret.Results[ei]
			ok = ok && (definitelyNonNil(v) || nonNilAt(v, c.Block()))
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(c.Block())
	return ok && any
}

// nonNilAt: the block is only reached when v was found to be non-nil.
func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; b, d = d, d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		side := 0
		switch errBranch(iff.Cond, map[ssa.Value]bool{v: true}) {
		case 1:
		case -1:
			side = 1
		default:
			continue
		}
		if t := d.Succs[side]; len(t.Preds) == 1 && t.Dominates(b) {
			return true
		}
	}
	return false
}

func definitelyNonNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "errors.New", "fmt.Errorf":
			return true
		}
	}
	return false
}

// dependsOn: v is computed from a value in vals (wrapping), through calls, slices of arguments and conversions.
func dependsOn(v ssa.Value, vals map[ssa.Value]bool, depth int) bool {
	if vals[v] {
		return true
	}
	if depth == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return dependsOn(x.X, vals, depth-1)
	case *ssa.ChangeInterface:
		return dependsOn(x.X, vals, depth-1)
	case *ssa.ChangeType:
		return dependsOn(x.X, vals, depth-1)
	case *ssa.Extract:
		return dependsOn(x.Tuple, vals, depth-1)
	case *ssa.Call:
		if x.Common().IsInvoke() && dependsOn(x.Common().Value, vals, depth-1) {
			return true
		}
		for _, a := range x.Common().Args {
			if dependsOn(a, vals, depth-1) {
				return true
			}
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok && dependsOn(st.Val, vals, depth-1) {
							return true
						}
					}
				}
			}
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, s := range *fa.Referrers() {
					if st, ok := s.(*ssa.Store); ok && dependsOn(st.Val, vals, depth-1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkErr explores all paths after the call and returns a description of a path on which the error is lost.
func checkErr(p *Prog, s errSite) (string, token.Pos) {
	f := s.f
	ei := errIndex(f.Signature)
	type item struct {
		b  *ssa.BasicBlock
		i  int
		st errState
	}
	seen := map[string]bool{}
	st0 := errState{vals: map[ssa.Value]bool{s.errv: true}, cells: map[ssa.Value]bool{}}
	start := -1
	sb := s.call.Block()
	for i, in := range sb.Instrs {
		if in == ssa.Instruction(s.call) {
			start = i + 1
		}
	}
	work := []item{{sb, start, st0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
		b := it.b
		done := false
		for i := it.i; i < len(b.Instrs) && !done; i++ {
			in := b.Instrs[i]
			if in == ssa.Instruction(s.call) && i < it.i+len(b.Instrs) && !(b == sb && it.i == start) {
				// the same call runs again
				if !st.examined && !st.nonnil {
					return "the call runs again before its error was looked at", in.Pos()
				}
				if st.nonnil && ei >= 0 {
					return "after an error the loop goes on", in.Pos()
				}
				done = true
				break
			}
			switch x := in.(type) {
			case *ssa.Extract:
				if st.vals[x.Tuple] && isErrorT(x.Type()) {
					st = st.clone()
					st.vals[x] = true
				}
			case *ssa.ChangeInterface:
				if st.vals[x.X] {
					st = st.clone()
					st.vals[x] = true
				}
			case *ssa.MakeInterface:
				if st.vals[x.X] {
					st = st.clone()
					st.vals[x] = true
				}
			case *ssa.Store:
				if dependsOn(x.Val, st.vals, 6) {
					if cellRecorded(x.Addr) {
						done = true // recorded in a variable the enclosing function returns
						break
					}
					st = st.clone()
					st.cells[x.Addr] = true
				} else if st.cells[x.Addr] {
					st = st.clone()
					delete(st.cells, x.Addr)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && st.cells[x.X] {
					st = st.clone()
					st.vals[x] = true
				}
			case *ssa.Panic:
				done = true
			case *ssa.Return:
				done = true
				if ei < 0 {
					if !st.examined && !st.nonnil {
						used := false
						for _, r := range x.Results {
							if dependsOn(r, st.vals, 6) {
								used = true
							}
						}
						if !used && !escapesElsewhere(s.errv) {
							return "the error is never looked at on a path to this return", x.Pos()
						}
					}
					break
				}
				r := x.Results[ei]
				if dependsOn(r, st.vals, 6) || definitelyNonNil(r) {
					break
				}
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && st.cells[u.X] {
					break
				}
				if st.nonnil {
					return "returns without the error although the call failed", x.Pos()
				}
				if !st.examined {
					return "returns without having looked at the error", x.Pos()
				}
			}
		}
		if done {
			continue
		}
		push := func(succ *ssa.BasicBlock, n errState) {
			// phis
			pi := -1
			for k, pr := range succ.Preds {
				if pr == b {
					pi = k
				}
			}
			n2 := n.clone()
			for _, in := range succ.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if dependsOn(ph.Edges[pi], n.vals, 6) {
					n2.vals[ph] = true
				} else {
					delete(n2.vals, ph)
				}
			}
			k := n2.key(succ)
			if !seen[k] {
				seen[k] = true
				work = append(work, item{succ, 0, n2})
			}
		}
		if len(b.Succs) == 0 {
			continue
		}
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			c := errBranch(ifi.Cond, st.vals)
			n := st.clone()
			switch c {
			case 1, -1:
				n.examined = true
				n.nonnil = true
				if c == 1 {
					push(b.Succs[0], n)
				} else {
					push(b.Succs[1], n)
				}
				if st.nonnil {
					// already known to be non-nil: the other side is infeasible
				}
			case 2, -2:
				// equal to a particular error: handled there
				n.examined = true
				o := st.clone()
				if c == 2 {
					push(b.Succs[1], o)
				} else {
					push(b.Succs[0], o)
				}
			default:
				push(b.Succs[0], n)
				push(b.Succs[1], n)
			}
			continue
		}
		for _, su := range b.Succs {
			push(su, st)
		}
	}
	return "", token.NoPos
}

// escapesElsewhere: the error is passed to another function or stored.
func escapesElsewhere(v ssa.Value) bool {
	for _, r := range nonDebug(v) {
		switch r.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
			return true
		case ssa.CallInstruction:
			return true
		}
	}
	return false
}

// cellRecorded: the address is a captured variable (or a field of the receiver) from which an error is later returned.
func cellRecorded(addr ssa.Value) bool {
	fv, ok := addr.(*ssa.FreeVar)
	if !ok {
		return false
	}
	fn := fv.Parent()
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		return false
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			cell := mc.Bindings[idx]
			if _, ok := cell.(*ssa.FreeVar); ok && cellRecorded(cell) {
				return true
			}
			// some return of the parent yields a load of the cell
			for _, pb := range par.Blocks {
				ret, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for _, rv := range ret.Results {
					if u, ok := rv.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == cell {
						return true
					}
				}
			}
		}
	}
	return false
}

// openedForWriting: the handle comes, directly or through functions of the repository, from a call that opens a file
// for writing. A handle obtained elsewhere is judged by its opener.
func openedForWriting(p *Prog, v ssa.Value, d int) bool {
	e, ok := v.(*ssa.Extract)
	if !ok || d > 4 {
		return false
	}
	c, ok := e.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	switch calleeName(c.Common()) {
	case "os.Create", "os.OpenFile", "os.CreateTemp", "io/ioutil.TempFile":
		return true
	}
	for _, f := range p.callees[c] {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && e.Index < len(r.Results) && openedForWriting(p, r.Results[e.Index], d+1) {
				return true
			}
		}
	}
	return false
}

// readOnlyClose: Close of something that was only read.
func readOnlyClose(p *Prog, cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	switch n {
	case "(io.ReadCloser).Close":
		return true
	case "(*os.File).Close":
		return !openedForWriting(p, cc.Args[0], 0)
	case "(io.Closer).Close":
		return true
	}
	return false
}

var c16Exempt = map[string]string{
	"ShowDesignView": "drawing aid of the template package; its signature has no error result",
}

// c16Only: an exempt function, or one that only exempt functions call.
func c16Only(p *Prog, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if c16Exempt[f.Name()] != "" {
		return true
	}
	if f.Parent() != nil {
		return c16Only(p, f.Parent(), seen)
	}
	if seen[f] || token.IsExported(f.Name()) || p.addrTaken[f] || len(p.callers[f]) == 0 {
		return false
	}
	seen[f] = true
	for _, c := range p.callers[f] {
		if !c16Only(p, c.Parent(), seen) {
			return false
		}
	}
	return true
}

func ruleC16(p *Prog, r *Report) {
	r.rule("error typestate: for every call with an error result (that can fail) in every function reachable from the exported API, on every path after the call the error is returned (as it is or wrapped), compared with nil and returned when non-nil, or recognised as a particular error; a path that returns without it, overwrites it or runs the call again is a violation")
	api := p.exportedAPI("", "render", "textbreak")
	from := p.reach(api)
	fi := newFail(p)
	for _, f := range p.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		if c16Only(p, f, map[*ssa.Function]bool{}) {
			continue
		}
		for i, s := range errSitesOf(p, f) {
			if !fi.callCanFail(s.call) {
				r.count("calls_that_cannot_fail", 1)
				continue
			}
			key := fmt.Sprintf("%s/%s#%d", fname(f), shortCallee(s.call.Common()), i)
			pos := p.pos(s.call.Pos())
			if _, ok := s.call.(*ssa.Defer); ok || s.errv == nil {
				_, deferred := s.call.(*ssa.Defer)
				if readOnlyClose(p, s.call.Common()) || deferred && calleeName(s.call.Common()) == "(*os.File).Close" || !deferred && failsAnyway(s.call) {
					r.ob(true, "error-propagates", key, pos, "")
					continue
				}
				if _, ok := s.call.(*ssa.Defer); ok && s.call.Value() == nil {
					r.ob(false, "error-propagates", key, pos, "the error of a deferred "+shortCallee(s.call.Common())+" is lost")
					continue
				}
				r.ob(false, "error-propagates", key, pos, "the error of "+shortCallee(s.call.Common())+" is discarded; reachable as "+chain(from, f))
				continue
			}
			msg, mp := checkErr(p, s)
			if msg != "" {
				msg = fmt.Sprintf("%s: %s (%s); reachable as %s", shortCallee(s.call.Common()), msg, p.pos(mp), chain(from, f))
			}
			r.ob(msg == "", "error-propagates", key, pos, msg)
		}
	}
	r.count("functions_reachable", len(from))
	r.floor("error-propagates", 200)
}

func shortCallee(c *ssa.CallCommon) string {
	n := calleeName(c)
	if n == "" {
		n = "function value"
	}
	n = strings.ReplaceAll(n, "github.com/signintech/", "")
	return n
}

// ---------- C32

func ruleC32(p *Prog, r *Report) {
	r.rule("pairing: on every path from a successful open of a file to a return, the file is closed, its Close is deferred, or it is handed to a function that closes it on all its paths; a function that returns the open file makes its callers responsible")
	openers := map[string]bool{"os.Open": true, "os.OpenFile": true, "os.Create": true, "os.CreateTemp": true, "io/ioutil.TempFile": true}
	type site struct {
		f *ssa.Function
		c *ssa.Call
	}
	var sites []site
	done := map[*ssa.Call]bool{}
	add := func(f *ssa.Function, c *ssa.Call) {
		if !done[c] {
			done[c] = true
			sites = append(sites, site{f, c})
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && openers[calleeName(c.Common())] {
					add(f, c)
				}
			}
		}
	}
	for i := 0; i < len(sites); i++ {
		s := sites[i]
		msg, transfer := checkClosed(p, s.f, s.c)
		key := fname(s.f) + "/" + shortCallee(s.c.Common())
		if transfer {
			ok := false
			for _, ci := range p.callers[s.f] {
				if cc, is := ci.(*ssa.Call); is {
					add(cc.Parent(), cc)
					ok = true
				}
			}
			r.ob(ok || (s.f.Object() != nil && s.f.Object().Exported()), "open-close", key, p.pos(s.c.Pos()), "an open file is returned but no caller was found")
			continue
		}
		r.ob(msg == "", "open-close", key, p.pos(s.c.Pos()), msg)
	}
	r.floor("open-close", 1)
	r.count("open_sites", len(sites))
	closersToo(p, r)
}

// closersToo: zlib readers/writers are not files; counted only.
func closersToo(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), ".Close") {
					n++
				}
			}
		}
	}
	r.count("close_calls", n)
}

func closesParam(p *Prog, g *ssa.Function, pi int, depth int) bool {
	if depth > 4 || pi >= len(g.Params) || !p.inLib[g] {
		return false
	}
	msg, tr := pathsClosed(p, g, g.Blocks[0], 0, map[ssa.Value]bool{g.Params[pi]: true}, nil, depth+1)
	return msg == "" && !tr
}

func checkClosed(p *Prog, f *ssa.Function, c *ssa.Call) (string, bool) {
	vals := map[ssa.Value]bool{}
	errs := map[ssa.Value]bool{}
	if c.Common().Signature().Results().Len() == 1 {
		vals[c] = true
	} else {
		for _, r := range *c.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				if isErrorT(e.Type()) {
					errs[e] = true
				} else if e.Index == 0 || strings.Contains(e.Type().String(), "os.File") || strings.Contains(e.Type().String(), "io.") {
					vals[e] = true
				}
			}
		}
	}
	idx := 0
	for i, in := range c.Block().Instrs {
		if in == ssa.Instruction(c) {
			idx = i + 1
		}
	}
	return pathsClosed(p, f, c.Block(), idx, vals, errs, 0)
}

func pathsClosed(p *Prog, f *ssa.Function, b0 *ssa.BasicBlock, i0 int, vals, errs map[ssa.Value]bool, depth int) (string, bool) {
	type item struct {
		b    *ssa.BasicBlock
		i    int
		vals map[ssa.Value]bool
		errs map[ssa.Value]bool
	}
	cells := map[ssa.Value]bool{}
	key := func(it item) string {
		var ks []string
		for v := range it.vals {
			ks = append(ks, v.Name())
		}
		for v := range it.errs {
			ks = append(ks, "e"+v.Name())
		}
		sort.Strings(ks)
		return fmt.Sprint(it.b.Index, ks)
	}
	seen := map[string]bool{}
	work := []item{{b0, i0, vals, errs}}
	cp := func(m map[ssa.Value]bool) map[ssa.Value]bool {
		n := map[ssa.Value]bool{}
		for k := range m {
			n[k] = true
		}
		return n
	}
	msg, transfer := "", false
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		closed := false
		for i := it.i; i < len(it.b.Instrs) && !closed; i++ {
			switch x := it.b.Instrs[i].(type) {
			case *ssa.MakeInterface:
				if it.vals[x.X] {
					it.vals = cp(it.vals)
					it.vals[x] = true
				}
			case *ssa.ChangeInterface:
				if it.vals[x.X] {
					it.vals = cp(it.vals)
					it.vals[x] = true
				}
			case *ssa.Store:
				if it.vals[x.Val] {
					cells[x.Addr] = true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && cells[x.X] {
					it.vals = cp(it.vals)
					it.vals[x] = true
				}
			case *ssa.MakeClosure:
				// a closure that closes a captured handle
				for bi, bd := range x.Bindings {
					if cells[bd] || it.vals[bd] {
						fn := x.Fn.(*ssa.Function)
						if closureCloses(fn, fn.FreeVars[bi]) {
							it.vals = cp(it.vals)
							it.vals[x] = true
						}
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				n := calleeName(cc)
				if strings.HasSuffix(n, ".Close") {
					if cc.IsInvoke() && it.vals[cc.Value] || !cc.IsInvoke() && len(cc.Args) > 0 && it.vals[cc.Args[0]] {
						closed = true
						break
					}
				}
				if _, ok := cc.Value.(*ssa.MakeClosure); ok && it.vals[cc.Value] {
					closed = true
					break
				}
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				for _, g := range p.callees[x] {
					for ai, a := range args {
						if it.vals[a] && closesParam(p, g, ai, depth) {
							closed = true
						}
					}
				}
			case *ssa.Return:
				closed = true
				ret := false
				for _, rv := range x.Results {
					if it.vals[rv] {
						ret = true
					}
				}
				if ret {
					transfer = true
				} else {
					msg = "a path to the return at " + p.pos(x.Pos()) + " leaves the file open"
				}
			case *ssa.Panic:
				closed = true
			}
		}
		if closed {
			continue
		}
		push := func(s *ssa.BasicBlock) {
			n := item{s, 0, cp(it.vals), cp(it.errs)}
			for k, pr := range s.Preds {
				if pr != it.b {
					continue
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if it.vals[ph.Edges[k]] {
						n.vals[ph] = true
					}
					if it.errs[ph.Edges[k]] {
						n.errs[ph] = true
					}
				}
			}
			k := key(n)
			if !seen[k] {
				seen[k] = true
				work = append(work, n)
			}
		}
		if ifi, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
			c := errBranch(ifi.Cond, it.errs)
			cv := errBranch(ifi.Cond, it.vals) // f == nil
			switch {
			case c == 1 || cv == -1:
				push(it.b.Succs[1])
			case c == -1 || cv == 1:
				push(it.b.Succs[0])
			default:
				push(it.b.Succs[0])
				push(it.b.Succs[1])
			}
			continue
		}
		for _, s := range it.b.Succs {
			push(s)
		}
	}
	if msg != "" {
		return msg, false
	}
	return "", transfer
}

func closureCloses(fn *ssa.Function, fv *ssa.FreeVar) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), ".Close") {
				v := c.Common().Value
				if !c.Common().IsInvoke() && len(c.Common().Args) > 0 {
					v = c.Common().Args[0]
				}
				if v == ssa.Value(fv) {
					return true
				}
				if u, ok := v.(*ssa.UnOp); ok && u.X == ssa.Value(fv) {
					return true
				}
			}
		}
	}
	return false
}

// ---------- C15: nothing is written before everything was built

// destOps: instructions of f that touch the destination; dest are the values that stand for it.
func fileMutator(n string) bool {
	switch n {
	case "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "os.Rename", "os.Remove", "os.RemoveAll", "os.Truncate", "os.Link", "os.Symlink", "os.Mkdir", "os.MkdirAll":
		return true
	}
	return false
}

func ruleC15(p *Prog, r *Report) {
	r.rule("ordering: in the call tree of every exported method that saves, no path leads from an operation on the destination (creating, opening or writing the file or the caller's writer) to a step that can still fail for another reason than writing to the destination")
	fi := newFail(p)
	roots := 0
	for _, f := range p.exportedAPI("") {
		if f.Signature.Recv() == nil || errIndex(f.Signature) < 0 {
			continue
		}
		// saves: has an io.Writer parameter, or creates/writes files in its tree
		var wp ssa.Value
		for _, pa := range f.Params[1:] {
			if pa.Type().String() == "io.Writer" {
				wp = pa
			}
		}
		from := p.reach([]*ssa.Function{f})
		creates := false
		for g := range from {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && fileMutator(calleeName(c.Common())) {
						creates = true
					}
				}
			}
		}
		if wp == nil && !creates {
			continue
		}
		roots++
		an := &destAn{p: p, fi: fi, r: r, seen: map[string]bool{}, sum: map[string]*destSum{}}
		d := map[int]bool{}
		for i, pa := range f.Params {
			if pa == wp {
				d[i] = true
			}
		}
		an.check(f, d, fname(f))
	}
	r.count("saving_methods", roots)
	if roots < 2 {
		r.ob(false, "build-before-write", "roots", "?", "fewer than two saving methods found")
	}
	r.floor("build-before-write", 2)
}

type destSum struct {
	touches  bool // some operation on the destination
	canOther bool // some step that can fail and is not an operation on the destination
}

type destAn struct {
	p    *Prog
	fi   *failInfo
	r    *Report
	seen map[string]bool
	sum  map[string]*destSum
}

func (d *destAn) check(f *ssa.Function, dest map[int]bool, path string) *destSum {
	k := fname(f) + fmt.Sprint(dest)
	if s, ok := d.sum[k]; ok {
		return s
	}
	s := &destSum{}
	d.sum[k] = s
	vals := map[ssa.Value]bool{}
	for i := range dest {
		vals[f.Params[i]] = true
	}
	// values that stand for the destination inside f (flow-insensitive)
	for ch := true; ch; {
		ch = false
		add := func(v ssa.Value) {
			if !vals[v] {
				vals[v] = true
				ch = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeInterface:
					if vals[x.X] {
						add(x)
					}
				case *ssa.ChangeInterface:
					if vals[x.X] {
						add(x)
					}
				case *ssa.TypeAssert:
					if vals[x.X] {
						add(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if vals[e] {
							add(x)
						}
					}
				case *ssa.Extract:
					if vals[x.Tuple] && !isErrorT(x.Type()) {
						add(x)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && vals[x.X] {
						add(x)
					}
				case *ssa.Store:
					if vals[x.Val] {
						add(x.Addr)
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							add(fa.X)
						}
					}
				case *ssa.FieldAddr:
					if vals[x.X] {
						add(x)
					}
				case *ssa.Call:
					n := calleeName(x.Common())
					switch n {
					case "os.Create", "os.OpenFile":
						add(x)
					case "bufio.NewWriter", "bufio.NewWriterSize", "io.MultiWriter", "io.TeeReader":
						for _, a := range x.Common().Args {
							if vals[a] {
								add(x)
							}
						}
					}
				}
			}
		}
	}
	type ev struct {
		kind int // 1 destination operation, 2 fallible other step, 3 both: fallible first then destination
		in   ssa.Instruction
		why  string
	}
	evs := map[ssa.Instruction]ev{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
			cc := c.Common()
			n := calleeName(cc)
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			lib := false
			for _, g := range d.p.callees[c] {
				if !d.p.inLib[g] {
					continue
				}
				if cc.IsInvoke() && !d.p.repoIface(cc.Value.Type()) && vals[cc.Value] {
					continue
				}
				lib = true
				dm := map[int]bool{}
				for i, a := range args {
					if vals[a] && i < len(g.Params) {
						dm[i] = true
					}
				}
				gs := d.check(g, dm, path+" -> "+fname(g))
				e := evs[in]
				e.in = in
				e.why = fname(g)
				if gs.touches {
					e.kind |= 1
				}
				if gs.canOther {
					e.kind |= 2
				}
				evs[in] = e
			}
			if lib {
				continue
			}
			isDest := fileMutator(n)
			for _, a := range args {
				if vals[a] {
					isDest = true
				}
			}
			if isDest {
				evs[in] = ev{1, in, n}
				continue
			}
			if errIndex(cc.Signature()) >= 0 && d.fi.callCanFail(c) {
				evs[in] = ev{2, in, n}
			}
		}
	}
	for _, e := range evs {
		if e.kind&1 != 0 {
			s.touches = true
		}
		if e.kind&2 != 0 {
			s.canOther = true
		}
	}
	// a fresh error made here is a failure as well
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if ei := errIndex(f.Signature); ei >= 0 && ei < len(ret.Results) && definitelyNonNil(ret.Results[ei]) {
				s.canOther = true
				evs[ret] = ev{2, ret, "error return"}
			}
		}
	}
	if !s.touches {
		return s
	}
	// forward reachability: after a destination operation no other fallible step
	after := map[*ssa.BasicBlock]ssa.Instruction{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if evs[in].kind&1 != 0 {
				d.r.obls++
				d.r.counts["obligations[build-before-write]"]++
				d.r.samples = append(d.r.samples, fmt.Sprintf("build-before-write %s: %s at %s", path, evs[in].why, d.p.pos(in.Pos())))
			}
		}
	}
	var order []*ssa.BasicBlock
	order = append(order, f.Blocks...)
	for ch := true; ch; {
		ch = false
		for _, b := range order {
			cur := after[b]
			for _, in := range b.Instrs {
				if evs[in].kind&1 != 0 && cur == nil {
					cur = in
				}
			}
			if cur != nil {
				for _, su := range b.Succs {
					if after[su] == nil {
						after[su] = cur
						ch = true
					}
				}
			}
		}
	}
	for _, b := range order {
		cur := after[b]
		for _, in := range b.Instrs {
			e := evs[in]
			if cur != nil && e.kind&2 != 0 {
				// the branch that wraps the destination's own error is not another failure
				if ret, ok := in.(*ssa.Return); ok && errFromDest(ret, f, evs2bool(f, evs, func(x ev) bool { return x.kind&1 != 0 })) {
					continue
				}
				d.r.ob(false, "build-before-write", fname(f)+"/"+e.why, d.p.pos(in.Pos()), fmt.Sprintf("%s can fail after the destination was touched at %s (%s)", e.why, d.p.pos(cur.Pos()), path))
			}
			if cur == nil && e.kind&1 != 0 {
				cur = in
			}
		}
	}
	return s
}

func evs2bool[T any](f *ssa.Function, evs map[ssa.Instruction]T, ok func(T) bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for in, e := range evs {
		if v, is := in.(ssa.Value); is && ok(e) {
			out[v] = true
			for _, r := range *v.Referrers() {
				if x, is := r.(*ssa.Extract); is {
					out[x] = true
				}
			}
		}
	}
	return out
}

// errFromDest: the return is control dependent on an error of a destination operation, or wraps it.
func errFromDest(ret *ssa.Return, f *ssa.Function, destErrs map[ssa.Value]bool) bool {
	for _, rv := range ret.Results {
		if dependsOn(rv, destErrs, 6) {
			return true
		}
	}
	b := ret.Block()
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		if ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
			if errBranch(ifi.Cond, destErrs) != 0 {
				return true
			}
		}
	}
	return false
}

var _ = constant.MakeBool
