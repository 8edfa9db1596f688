package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C17", ruleC17) }

// commitField: a write to this field of the document (or of something the document keeps) changes what a later
// save writes. Appending a new, unreferenced object does not; neither do glyphs added to a font subset.
func commitField(owner *types.Named, field string) bool {
	if owner == nil {
		return true
	}
	switch owner.Obj().Name() {
	case "PDFt", "current":
		return true
	case "PDFData":
		return field != "objs" && field != "objIDs" && field != "pageSizes"
	case "PDFObjData":
		return true
	case "ContentText", "contentImgBase64", "ContentLineStyle", "PDFImageData":
		return true
	}
	return false
}

type commitAn struct {
	p     *Prog
	a     *aliasAn // memory reachable from the receiver
	fi    *failInfo
	r     *Report
	memo  map[string]int // 1 commits, 2 does not, 3 in progress
	check map[*ssa.Function]bool
}

func (c *commitAn) isCommit(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Store:
		if c.a.why[x.Addr] == "" {
			return ""
		}
		switch ad := x.Addr.(type) {
		case *ssa.FieldAddr:
			t := ad.X.Type().Underlying().(*types.Pointer).Elem()
			n, _ := t.(*types.Named)
			fn := t.Underlying().(*types.Struct).Field(ad.Field).Name()
			if commitField(n, fn) {
				nm := "?"
				if n != nil {
					nm = n.Obj().Name()
				}
				return nm + "." + fn
			}
			return ""
		case *ssa.IndexAddr:
			// an element of a list the document keeps
			t := x.Val.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok && commitField(n, "") {
				return "element of type " + n.Obj().Name()
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				if root := fieldOfValue(ad.X); root != "" && commitName(root) {
					return "element of " + root
				}
			}
			return ""
		default:
			t := x.Val.Type()
			if n, ok := t.(*types.Named); ok && (n.Obj().Name() == "PDFData" || n.Obj().Name() == "PDFObjData" || n.Obj().Name() == "PDFt") {
				return "whole " + n.Obj().Name()
			}
		}
	case *ssa.MapUpdate:
		if c.a.why[x.Map] == "" {
			return ""
		}
		if root := fieldOfValue(x.Map); root != "" && commitName(root) {
			return "entry of " + root
		}
	}
	return ""
}

func commitName(s string) bool {
	i := strings.Index(s, ".")
	switch s[:i] {
	case "PDFt", "current":
		return true
	case "PDFData":
		return s != "PDFData.objs" && s != "PDFData.objIDs" && s != "PDFData.pageSizes"
	}
	return false
}

// fieldOfValue: "Type.field" the slice or map was loaded from.
func fieldOfValue(v ssa.Value) string {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if n, ok := t.(*types.Named); ok {
					return n.Obj().Name() + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
				}
				return ""
			}
			return ""
		case *ssa.Slice:
			v = x.X
		case *ssa.Phi:
			v = x.Edges[0]
		case *ssa.ChangeType:
			v = x.X
		default:
			return ""
		}
	}
	return ""
}

// commits: can the call change document state through an argument that leads to the document?
func (c *commitAn) commits(g *ssa.Function, call ssa.CallInstruction) bool {
	args := callArgs(call.Common())
	for i, a := range args {
		if i < len(g.Params) && c.a.why[a] != "" && c.commitsParam(g, i) {
			return true
		}
	}
	if mc, ok := call.Common().Value.(*ssa.MakeClosure); ok {
		fn := mc.Fn.(*ssa.Function)
		for i := range fn.FreeVars {
			if c.commitsRoot(fn, fn.FreeVars[i], fmt.Sprintf("%s#f%d", fname(fn), i)) {
				return true
			}
		}
	}
	return false
}

func (c *commitAn) commitsParam(g *ssa.Function, i int) bool {
	return c.commitsRoot(g, g.Params[i], fmt.Sprintf("%s#%d", fname(g), i))
}

func (c *commitAn) commitsRoot(g *ssa.Function, root ssa.Value, k string) bool {
	switch c.memo[k] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	c.memo[k] = 3
	d := derivedFrom(c.p, g, root)
	res := false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if d[x.Addr] && c.isCommit(in) != "" {
					res = true
				}
			case *ssa.MapUpdate:
				if d[x.Map] && c.isCommit(in) != "" {
					res = true
				}
			case ssa.CallInstruction:
				for _, h := range c.p.callees[x] {
					if !c.p.inLib[h] {
						continue
					}
					for j, a := range callArgs(x.Common()) {
						if d[a] && j < len(h.Params) && c.commitsParam(h, j) {
							res = true
						}
					}
				}
			}
		}
	}
	c.memo[k] = 2
	if res {
		c.memo[k] = 1
	}
	return res
}

// atomic: on no path of f is a commit followed by a return of a possibly non-nil error.
func (c *commitAn) atomic(f *ssa.Function, entry string) {
	if c.check[f] {
		return
	}
	c.check[f] = true
	ei := errIndex(f.Signature)
	type item struct {
		b *ssa.BasicBlock
		i int
		// last commit on the path and, if it was a call that can fail, the error value it gave
		commit ssa.Instruction
		what   string
		pend   ssa.Value // error of a committing call, not yet tested
		pendC  ssa.Instruction
		pendW  string
	}
	key := func(it item) string {
		s := fmt.Sprint(it.b.Index, "|", it.i)
		if it.commit != nil {
			s += "|c" + fmt.Sprint(it.commit.Pos())
		}
		if it.pend != nil {
			s += "|p" + it.pend.Name()
		}
		return s
	}
	seen := map[string]bool{}
	work := []item{{b: f.Blocks[0]}}
	n := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := key(it)
		if seen[k] {
			continue
		}
		seen[k] = true
		stop := false
		for i := it.i; i < len(it.b.Instrs) && !stop; i++ {
			in := it.b.Instrs[i]
			if w := c.isCommit(in); w != "" {
				it.commit, it.what = in, w
				n++
				continue
			}
			switch x := in.(type) {
			case ssa.CallInstruction:
				var com []*ssa.Function
				for _, g := range c.p.callees[x] {
					if c.p.inLib[g] && c.commits(g, x) {
						com = append(com, g)
					}
				}
				if len(com) == 0 {
					continue
				}
				n++
				for _, g := range com {
					if errIndex(g.Signature) >= 0 {
						c.atomic(g, entry)
					}
				}
				if errIndex(x.Common().Signature()) >= 0 && c.fi.callCanFail(x) && x.Value() != nil {
					var ev ssa.Value
					if x.Common().Signature().Results().Len() == 1 {
						ev = x.Value()
					} else {
						for _, r := range *x.Value().Referrers() {
							if e, ok := r.(*ssa.Extract); ok && isErrorT(e.Type()) {
								ev = e
							}
						}
					}
					if ev != nil {
						// before this call a commit may already have happened: its failure is then a late failure
						if it.commit != nil && !c.exempt(f, it.commit, x) {
							c.r.ob(false, "commit-last", fname(f)+"/"+shortCallee(x.Common()), c.p.pos(x.Pos()), fmt.Sprintf("%s can fail after %s was changed at %s (call of %s)", shortCallee(x.Common()), it.what, c.p.pos(it.commit.Pos()), entry))
						}
						it.pend, it.pendC, it.pendW = ev, in, "state changed by "+fname(com[0])
						continue
					}
				}
				it.commit, it.what = in, "state (by "+fname(com[0])+")"
			case *ssa.Return:
				stop = true
				if ei < 0 || it.commit == nil {
					continue
				}
				rv := x.Results[ei]
				if isNilConst(rv) {
					continue
				}
				if it.pend != nil && (rv == it.pend) && it.commit == it.pendC {
					continue
				}
				if it.pend != nil && rv == it.pend {
					continue // reported at the call
				}
				if !c.fi.valueMayFail(rv) {
					continue
				}
				if origin := callOf(rv); origin != nil && c.exempt(f, it.commit, origin) {
					continue
				}
				c.r.ob(false, "commit-last", fname(f)+"/return", c.p.pos(x.Pos()), fmt.Sprintf("an error can be returned here although %s was changed at %s (call of %s)", it.what, c.p.pos(it.commit.Pos()), entry))
			}
		}
		if stop {
			continue
		}
		push := func(s *ssa.BasicBlock, n item) {
			n.b, n.i = s, 0
			if n.pend != nil {
				for k, pr := range s.Preds {
					if pr == it.b {
						for _, in := range s.Instrs {
							if ph, ok := in.(*ssa.Phi); ok && ph.Edges[k] == n.pend {
								n.pend = ph
							}
						}
					}
				}
			}
			work = append(work, n)
		}
		if ifi, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok && it.pend != nil {
			br := errBranch(ifi.Cond, map[ssa.Value]bool{it.pend: true})
			if br == 1 || br == -1 {
				bad, good := it.b.Succs[0], it.b.Succs[1]
				if br == -1 {
					bad, good = good, bad
				}
				nb := it
				nb.pend = nil // failed: it changed nothing (checked in the callee)
				push(bad, nb)
				ng := it
				ng.commit, ng.what, ng.pend = it.pendC, it.pendW, nil
				push(good, ng)
				continue
			}
		}
		for _, s := range it.b.Succs {
			push(s, it)
		}
	}
	c.r.count("state_changes_examined", n)
	c.r.ob(true, "commit-last", fname(f)+" (in "+entry+")", c.p.pos(f.Pos()), "")
}

func callOf(v ssa.Value) ssa.CallInstruction {
	switch x := v.(type) {
	case *ssa.Call:
		return x
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c
		}
	}
	return nil
}

func (fi *failInfo) valueMayFail(v ssa.Value) bool {
	w := fi.cause(v, map[ssa.Value]bool{})
	return w.other || len(w.param) > 0
}

// exempt: the lines of a wrapped text are inserted one after the other. Insert fails only for an unknown font or a
// character the font cannot take, and every word was measured with the same font before (measuring makes the same
// two tests), so the second Insert cannot fail after the first.
func (c *commitAn) exempt(f *ssa.Function, commit ssa.Instruction, call ssa.CallInstruction) bool {
	cc, ok := commit.(ssa.CallInstruction)
	if !ok {
		return false
	}
	inserts := func(g *ssa.Function) bool {
		if g == nil || g.Name() == "Insert" {
			return g != nil
		}
		if token.IsExported(g.Name()) || !c.p.inLib[g] {
			return false
		}
		for h := range c.p.reach([]*ssa.Function{g}) {
			if h.Name() == "Insert" {
				return true
			}
		}
		return false
	}
	if !inserts(cc.Common().StaticCallee()) || !inserts(call.Common().StaticCallee()) {
		return false
	}
	// every word is measured: MeasureTextWidth is called in the same tree, before
	for g := range c.p.reach([]*ssa.Function{f}) {
		if g.Name() == "MeasureTextWidth" {
			return true
		}
	}
	for _, ci := range c.p.callers[f] {
		for g := range c.p.reach([]*ssa.Function{ci.Parent()}) {
			if g.Name() == "MeasureTextWidth" {
				return true
			}
		}
	}
	return false
}

func ruleC17(p *Prog, r *Report) {
	r.rule("commit last: in every exported editing method with an error result and, recursively, in every function it calls, no path leads from a write to document state (alias analysis from the receiver) to a return of a possibly non-nil error; a failing callee is checked to have changed nothing")
	fi := newFail(p)
	n := 0
	for _, f := range p.exportedAPI("") {
		rv := f.Signature.Recv()
		if rv == nil || errIndex(f.Signature) < 0 || !strings.HasSuffix(rv.Type().String(), ".PDFt") {
			continue
		}
		if strings.HasPrefix(f.Name(), "Save") {
			continue
		}
		a := newAlias(p)
		a.why[f.Params[0]] = "the document"
		a.run()
		c := &commitAn{p: p, a: a, fi: fi, r: r, memo: map[string]int{}, check: map[*ssa.Function]bool{}}
		c.atomic(f, fname(f))
		n++
	}
	r.count("exported_editing_methods", n)
	if n < 14 {
		r.ob(false, "commit-last", "methods", "?", fmt.Sprintf("only %d exported editing methods found", n))
	}
}
